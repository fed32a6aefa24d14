"""system(): native against monitored."""
import os
import re

from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c09 import dump_of, arg_st

KEEP = bit(42)      # SIGRTMIN+8, the exit signal chosen by default
SHELLSAFE = st.text(st.sampled_from("abcXYZ019 _-=+./*$\\\"#~&;()<>|\t\xe9"), max_size=12)


def quote(s):
    return "'" + s.replace("'", "'\\''") + "'"


@st.composite
def command(draw, ignored):
    k = draw(st.integers(0, 11))
    if k == 0:
        return "exit %d" % draw(st.integers(0, 300))
    if k == 1:
        sigs = [x for x in (1, 15, 9, 10, 13, 40, 2, 3) if x not in ignored]
        return "kill -%d $$; exit 9" % draw(st.sampled_from(sigs))
    if k == 2:
        return draw(st.sampled_from(["nosuchcommand_x", "@BIN@/nosuch", "(", "'", "", "  ", ":", "true", "false",
                                     "#comment", "exit", "&", "exec nosuch_y"]))
    if k == 3:
        return "echo %s" % quote(draw(SHELLSAFE))
    if k == 4:
        return None
    if k == 5:
        if draw(st.integers(0, 2)) == 0:
            return "echo $0 $# $-"
        return "kill -%d $PPID; exit %d" % (draw(st.sampled_from([2, 3, 15, 12])), draw(st.integers(0, 9)))
    if k == 6:
        return "echo $V1 \"$V2\"; cd /; exec @BIN@/vdump x" + " y" * draw(st.sampled_from([0, 3, 3000]))
    if k == 7:
        return "@BIN@/vdump a; @BIN@/vdump b | @BIN@/vdump c; exit %d" % draw(st.integers(0, 9))
    if k == 8:
        return "VDUMP_STATUS=%d exec @BIN@/vdump z" % draw(st.integers(0, 255))
    return "exec @BIN@/vdump " + " ".join(quote(a) for a in draw(st.lists(SHELLSAFE, max_size=5)))


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    body = []
    # handlers for what commands send to their parent
    for sig in (15, 12):
        body.append(["SIGACTION", sig, draw(st.sampled_from([2, 4])), 0, 0, 1])
    ignored = set()
    meta = {"sys": []}
    off = draw(st.integers(0, 5)) == 0
    nfork = 0
    gates = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 8))
        if k <= 1:
            kind = draw(st.sampled_from([0, 1, 2, 4]))
            sig = draw(st.sampled_from([2, 3, 17, 17, 1]))
            if kind == 1:
                ignored.add(sig)
            if draw(st.booleans()):
                body.append(["SIGACTION", sig, kind, draw(st.sampled_from([0, SA_RESTART, SA_NOCLDSTOP])), 0, 1])
            else:
                body.append(["SIGNAL", sig, min(kind, 3)])
        elif k == 2:
            m = draw(st.sampled_from([0, bit(17), bit(2) | bit(3), bit(10), bit(17) | bit(40) | bit(64), bit(14)]))
            body.append(["MASK", draw(st.integers(0, 1)), draw(st.integers(0, 2)), m, 1])
        elif k == 3:
            body.append(["SETENV", "V%d" % draw(st.integers(1, 3)), draw(arg_st)])
        else:
            c = draw(command(ignored))
            body.append(["SYSTEM", c, 0])
            if c is not None and not off:
                nfork += 1
                if draw(st.integers(0, 9)) == 0:
                    gates.append(gate("real_fork", nth=nfork, what=GW.FAIL))
    if not any(o[0] == "SYSTEM" for o in body):
        body.append(["SYSTEM", draw(command(ignored)), 0])
    # likewise a pending interrupt
    if any(o[0] == "MASK" and o[3] & 6 for o in body) and (ignored & {2, 3} or ["SYSTEM", None, 0] in body):
        body = [[o[0], re.sub("-[23] .PPID", "-15 $PPID", o[1]), 0] if o[0] == "SYSTEM" and o[1] else o for o in body]
    # a handler may be what the last mask change held back
    body += [["MASK", 1, 2, 0, 1], ["RETURN", 4]]
    main = p.rout[0]
    if draw(st.integers(0, 3)) == 0:
        s = p.slot()
        main += [create(s, p.arg(p.new(body))), ["JOIN", s], ["RETURN", 4]]
    else:
        main += body
    # the gates count the forks of monitored shells as well: fail forks only where no shell forks
    if any(o[0] == "SYSTEM" and o[1] and ("vdump a;" in o[1] or "nosuch" in o[1]) for o in body):
        gates = []
    env = {"MONITOR_NO_SYSTEM_OVERRIDE": draw(st.sampled_from(["", "1"]))} if off else {}
    return p.case(mode, gates=gates, env=env, meta={"off": off})


class Check(BaseCheck):
    id = "C10"
    modes = ["dyn", "native", "static"]
    quick = (60, 4000)
    rule = ("A case is a generated sequence of system() calls (exit codes, signals, missing and malformed commands, no "
            "command, commands that signal their parent, pipelines, long commands) under generated dispositions, "
            "masks and environments, in main or a thread, with injected fork failures and with the override "
            "turned off, run natively and monitored. Non-trivial: at least one command ran. Distinct by program text.")
    assumptions = ["one system() call at a time in a process",
                   "ignored signals are not inherited through exec by design, so commands do not rely on them"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        n = ctx.run(case, mode="native", gates=[])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        off = case["meta"]["off"]
        libs = os.path.join(self.build.bin, "client.so").encode()
        # a command that could not be started sends no signals either
        fails = any(e.type == T.REAL and e.code == GP.real_fork and e.a[0] < 0 for e in r.log)
        ctx.expect(fails or r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        rs = [e for e in r.log if e.type == T.RES and e.code == OP.SYSTEM]
        ns = [e for e in n.log if e.type == T.RES and e.code == OP.SYSTEM]
        if fails and len(rs) != len(ns):
            return
        if not ctx.expect(len(rs) == len(ns), "%d system calls returned, natively %d" % (len(rs), len(ns))):
            return
        failed = set()
        evs = [e for e in r.log if e.pid == r.main_pid]
        k = 0
        ran = 0
        cmds = [o[1] for q in case["rout"] for o in q if o[0] == "SYSTEM"]
        pids = []
        for i, e in enumerate(rs):
            op = next(x for x in evs if x.type == T.OP and x.code == OP.SYSTEM and x.a[0] == e.a[0])
            mid = [x for x in evs if op.i < x.i < e.i and x.kt == e.kt]
            cbs = [x for x in mid if x.type == T.CB_ENTER]
            real = [x for x in mid if x.type == T.REAL and x.code == GP.real_fork]
            bad = any(x.a[0] < 0 for x in real)
            if cmds[i] is None:
                # (libc answers 0 when SIGCHLD is ignored)
                ctx.expect(e.a[1] != 0 or off and ns[i].a[1] == 0, "system(NULL) returns 0")
            elif bad:
                failed.add(i)
                ctx.expect(e.a[1] == -1, "system returns %d when fork fails" % e.a[1])
                ctx.expect(e.a[2] == 11, "errno %d when fork fails" % e.a[2])
            else:
                # the core flag depends on limits
                ctx.expect(e.a[1] & ~0x80 == ns[i].a[1] & ~0x80, "system(%.40r) returns %#x, natively %#x" % (
                    cmds[i], e.a[1], ns[i].a[1]))
                if e.a[1] == -1:
                    ctx.expect(e.a[2] == ns[i].a[2], "errno %d, natively %d" % (e.a[2], ns[i].a[2]))
            ctx.expect(e.a[3] == e.a[4], "the caller's mask changed from %#x to %#x" % (e.a[3], e.a[4]))
            ctx.expect(e.a[5] == 1, "the caller's handling of SIGINT changed")
            ctx.expect(e.a[6] == 1, "the caller's handling of SIGQUIT changed")
            names = [CB.name(x.code) for x in cbs]
            if cmds[i] is None or off:
                ctx.expect(not names, "callbacks %s" % names)
                continue
            if not ctx.expect(names == ["pre_fork", "post_fork"], "callbacks %s" % names):
                continue
            ran += 1
            pre = [x for x in mid if x.type == T.CB_LEAVE and x.code == CB.pre_fork]
            ctx.expect(cbs[1].a[1] == pre[0].a[0], "post_fork got another value than pre_fork gave")
            ctx.expect(real and cbs[1].a[0] == real[0].a[0], "post_fork got pid %d" % cbs[1].a[0])
            if bad:
                ctx.expect(cbs[1].a[0] == -1, "post_fork of a failed fork got %d" % cbs[1].a[0])
            else:
                pids.append(cbs[1].a[0])
                kid = [x for x in r.log if x.pid == cbs[1].a[0]]
                if kid:
                    ctx.expect(kid[0].type == T.DUMP or kid[0].code in (CB.init_library, CB.start_main_init),
                               "the command's process has %r first" % kid[0])
                    ctx.expect(all(op.i < x.i < e.i for x in kid), "the command runs outside the call")
        if failed:
            ctx.nontrivial = ["%s/fork fails" % case["mode"]]
            return
        rd = [(dump_of(r, e, libs), e) for e in r.log if e.type == T.DUMP]
        nd = [(dump_of(n, e, libs), e) for e in n.log if e.type == T.DUMP]
        # members of a pipeline run in any order
        key = lambda x: x[0][0]
        if any("|" in (c or "") and "vdump b" in c for c in cmds):
            rd.sort(key=key)
            nd.sort(key=key)
        if ctx.expect(len(rd) == len(nd), "%d programs ran, natively %d" % (len(rd), len(nd))):
            for (a, ea), (b, eb) in zip(rd, nd):
                ctx.expect(a[0] == b[0], "arguments %s, natively %s" % (str(a[0])[:80], str(b[0])[:80]))
                ctx.expect(a[1] == b[1], "environment %s, natively %s" % (str(a[1])[:80], str(b[1])[:80]))
                ctx.expect(a[2] == b[2], "directory differs")
                ctx.expect(ea.a[4] & M64 & ~KEEP == eb.a[4] & M64 & ~KEEP, "mask of the command %#x, natively %#x" % (
                    ea.a[4] & M64, eb.a[4] & M64))
                ctx.expect(ea.a[5] & ~eb.a[5] == 0, "the command ignores signals %#x, natively %#x" % (
                    ea.a[5] & M64, eb.a[5] & M64))
        ctx.expect(r.out == n.out, "output %r, natively %r" % (r.out[:60], n.out[:60]))
        hr = sorted((e.code, e.a[0]) for e in r.log if e.type == T.HANDLER and e.pid == r.main_pid)
        hn = sorted((e.code, e.a[0]) for e in n.log if e.type == T.HANDLER and e.pid == n.main_pid)
        if None in cmds or any(o[0] == "CREATE" or o[0] == "MASK" and o[3] & bit(17) for q in case["rout"]
                               for o in q):
            # the library catches ignored signals too, so one that is blocked stays pending when
            # the action becomes ignore;
            # libc runs a command to answer system(NULL); and two SIGCHLD to another thread may become one
            hr = [x for x in hr if x[1] != 17]
            hn = [x for x in hn if x[1] != 17]
        if any(o[0] == "CREATE" for o in case["rout"][0]):
            # a second signal may find the first one still pending for main
            hr, hn = sorted(set(hr)), sorted(set(hn))
        ctx.expect(hr == hn, "handlers ran %s, natively %s" % (hr, hn))
        if ran or off:
            ctx.nontrivial = ["%s/%s" % (case["mode"], "override off" if off else "on")]


M64 = (1 << 64) - 1
CHECK = Check()
