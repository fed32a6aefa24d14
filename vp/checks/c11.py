"""The real functions given to the client."""
import os

from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c09 import dump_of, arg_st, args_st
from .c10 import KEEP, M64, SHELLSAFE, quote

PRE = ["LD_PRELOADX=1", "LD_PRELOA=2", "LD_PRELOAD", "XLD_PRELOAD=3", "LD_PRELOAD_64=x", "ld_preload=4", "LD_PRELOAD32=",
       "LD_LIBRARY_PATH=", "LD_AUDI=1", "", "=", "NOEQ", "LD_", "L", "LD_PRELOADS=LD_PRELOAD="]
LDP = ["LD_PRELOAD=", "LD_PRELOAD=@BIN@/libv1.so", "LD_PRELOAD=@BIN@/client.so"]
num_st = st.one_of(st.integers(0, 10), st.sampled_from([100, 200, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255,
                                                         256, 257, 300, 500, 510, 512, 514, 600, 700]))


@st.composite
def env_list(draw, extra):
    n = draw(num_st)
    few = draw(st.lists(st.sampled_from(PRE + extra), max_size=6))
    out = ["W%d=%d" % (i, i) for i in range(n)]
    for x in few:
        k = draw(st.integers(0, 3))
        out.insert({0: 0, 1: len(out)}.get(k, draw(st.integers(0, len(out)))), x)
    return out


@st.composite
def command(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return "exit %d" % draw(st.integers(0, 255))
    if k == 1:
        return "kill -%d $$; exit 9" % draw(st.sampled_from([1, 15, 9, 40]))
    if k == 2:
        return draw(st.sampled_from(["@BIN@/nosuch", "(", "", "true"]))
    if k == 3:
        return None
    if k == 4:
        return "@BIN@/vdump p1; @BIN@/vdump p2; exit 3"
    if k == 5:
        return "VDUMP_STATUS=%d exec @BIN@/vdump z" % draw(st.integers(0, 255))
    return "exec @BIN@/vdump " + " ".join(quote(a) for a in draw(st.lists(SHELLSAFE, max_size=4)))


@st.composite
def exec6(draw, fail):
    path = draw(st.sampled_from(["@BIN@/nosuch", "@BIN@/main.o/x", "/", ""])) if fail else "@BIN@/vdump"
    argv = draw(args_st()) or ["x"]
    if draw(st.integers(0, 2)) == 0:
        return ["EXEC", 6, path, argv, len(argv), [], -1, 0]
    env = draw(env_list(LDP))
    return ["EXEC", 6, path, argv, len(argv), env, len(env), draw(st.integers(0, 1))]


@st.composite
def steps(draw, p, meta, depth, mode):
    body = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 10))
        if k <= 1:
            body.append(["SETENV", draw(st.sampled_from(["V1", "V2", "LD_PRELOADX", "LD_PRELOA", "LD_PRELOAD_"])),
                         draw(arg_st)])
        elif k <= 4:
            body.append(["SYSTEM", draw(command()), 1])
        elif k == 5:
            body.append(draw(exec6(True)))
        elif k == 6:
            body.append(["MASK", draw(st.integers(0, 1)), draw(st.integers(0, 2)),
                         draw(st.sampled_from([0, bit(6), bit(17), bit(40) | bit(10)])), 1])
        elif k == 7:
            body.append(["SIGACTION", draw(st.sampled_from([6, 2, 17, 10])), draw(st.sampled_from([0, 2, 4])), 0, 0, 1])
        elif k == 8 and mode == "dyn":
            s = draw(st.integers(0, 5))
            body.append(["DLOPEN", s, draw(st.sampled_from(["@BIN@/libv%d.so" % i for i in (1, 2, 3)] +
                                                           ["@BIN@/nosuch.so", "@BIN@/main.o", "libm.so.6", None])),
                         draw(st.sampled_from([1, 2, 0x101, 0x102, 2 | 4])), 1])
            if draw(st.booleans()):
                body.append(["DLCLOSE", s, 1])
        elif k >= 9 and depth < 2 and meta["forks"] < 4:
            meta["forks"] += 1
            s = meta["forks"] - 1
            child = draw(steps(p, meta, depth + 1, mode)) + draw(ending(False))
            body += [["FORK", s, 2, p.new([["QUERY"]] + child)], ["WAITCHILD", s]]
    return body


@st.composite
def ending(draw, inmain):
    k = draw(st.integers(0, 4 if inmain else 3))
    if k <= 1:
        return [["EXIT", EX.realexit, draw(st.integers(0, 255))]]
    if k == 2:
        pre = []
        if draw(st.booleans()):       # another signal is pending
            s = draw(st.sampled_from([1, 15, 10, 40]))
            pre = [["MASK", draw(st.integers(0, 1)), 0, bit(s), 1], ["RAISE", draw(st.integers(0, 1)), s, 0]]
        return pre + [["EXIT", EX.realabort, 0]]
    if k == 3:
        return [draw(exec6(False))]
    return [["RETURN", 7]]


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    meta = {"forks": 0}
    body = draw(steps(p, meta, 0, mode))
    body += draw(ending(True))
    main = p.rout[0]
    if draw(st.integers(0, 3)) == 0:
        s = p.slot()
        main += [create(s, p.arg(p.new(body))), ["JOIN", s], ["RETURN", 7]]
    else:
        main += body
    gates = []
    if draw(st.integers(0, 5)) == 0:
        gates = [gate("real_fork", nth=draw(st.integers(1, 3)), what=GW.FAIL)]
    return p.case(mode, gates=gates, rawenv=draw(env_list([])), meta=meta)


class Check(BaseCheck):
    id = "C11"
    modes = ["dyn", "native", "static", "libs"]
    quick = (60, 6000)
    rule = ("A case is a generated sequence of the client's real functions (system, execve, fork, exit, abort, dlopen, "
            "dlclose) under environments of up to 700 variables with names close to the preload variable, from main, "
            "a thread or real-forked children, with injected fork failures, run natively and monitored. Non-trivial: "
            "at least one real function was called. Distinct by program text.")
    assumptions = ["the client does not call these functions concurrently"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        r = ctx.run(case)
        fails = any(e.type == T.REAL and e.code == GP.real_fork and e.a[0] < 0 for e in r.log)
        drop = lambda o: o[:5] + [[x for x in o[5] if not x.startswith("LD_PRELOAD=")] if o[5] is not None else None] + \
            o[6:] if o[0] == "EXEC" else o
        fix = lambda o: o[:6] + [len(o[5]) if o[6] >= 0 else -1] + o[7:] if o[0] == "EXEC" else o
        n = ctx.run(case, mode="native", gates=[], rout=[[fix(drop(o)) for o in q] for q in case["rout"]])
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        # -- callbacks --
        pids = by_pid(r)
        kids = {}
        used = 0
        for pid, evs in pids.items():
            cur = {}
            for e in evs:
                if e.type == T.OP and e.code in REAL:
                    cur[e.kt] = e
                    used += 1
                elif e.type == T.RES and e.code in REAL:
                    cur.pop(e.kt, None)
                    if e.code == OP.FORK and e.a[1] == 0:
                        kids[pid] = e
                elif e.type == T.CB_ENTER and e.kt in cur and (e.code not in END or cur[e.kt].code != OP.RETURN):
                    ctx.fail("callback %s in the real %s" % (CB.name(e.code), OP.name(cur[e.kt].code)))
            started = any(e.type == T.CB_ENTER and e.code in (CB.init_library, CB.start_main_init) for e in evs)
            if pid != r.main_pid and pid not in kids:
                ctx.expect(not started, "a program started by a real function is monitored")
                ctx.expect(not any(e.type == T.CB_ENTER for e in evs), "callbacks in a process started by a real function")
            elif pid in kids:
                ctx.expect(not started, "init callbacks in a real-forked child")
                bad = [CB.name(e.code) for e in evs if e.type == T.CB_ENTER and e.i < kids[pid].i or
                       e.type == T.CB_ENTER and e.code in (CB.init_process, CB.pre_fork, CB.post_fork)]
                ctx.expect(not bad, "callbacks %s in a real-forked child" % bad)
                q = [e for e in evs if e.type == T.RES and e.code == OP.QUERY]
                ctx.expect(not q or q[0].a[1] == 0, "thread number in a real-forked child")
        # -- native --
        if fails:
            for e in r.log:
                if e.type == T.RES and e.code == OP.FORK and e.a[1] < 0:
                    ctx.expect(e.a[2] == 11, "errno %d when fork fails" % e.a[2])
            ctx.nontrivial = ["%s/fork fails" % case["mode"]]
        else:
            core = lambda x: x & ~0x80
            ctx.expect(core(r.status) == core(n.status), "status %#x, natively %#x" % (r.status, n.status))
            fr, fn = flows(r), flows(n)
            ctx.expect(fr == fn, "results differ from native: %s" % diff(fr, fn))
        libs = os.path.join(self.build.bin, "client.so").encode()
        none = b"\0none"
        rd = [dump_of(r, e, none) for e in r.log if e.type == T.DUMP]
        nd = [dump_of(n, e, none) for e in n.log if e.type == T.DUMP]
        for d in rd:
            ctx.expect(not any(x.startswith(b"LD_PRELOAD=") for x in d[1]), "the program was started with LD_PRELOAD")
        if not fails and ctx.expect(len(rd) == len(nd), "%d programs ran, natively %d" % (len(rd), len(nd))):
            for a, b in zip(rd, nd):
                ctx.expect(a[0] == b[0], "arguments %s, natively %s" % (str(a[0])[:80], str(b[0])[:80]))
                ctx.expect(a[1] == b[1], "environment: missing %s, added %s" % (
                    str([x for x in b[1] if x not in a[1]])[:80], str([x for x in a[1] if x not in b[1]])[:80]))
            ea = [e for e in r.log if e.type == T.DUMP]
            eb = [e for e in n.log if e.type == T.DUMP]
            for a, b in zip(ea, eb):
                ctx.expect(a.a[4] & M64 & ~KEEP == b.a[4] & M64 & ~KEEP, "mask of the program %#x, natively %#x" % (
                    a.a[4] & M64, b.a[4] & M64))
                ctx.expect(a.a[5] == b.a[5], "the program ignores signals %#x, natively %#x" % (a.a[5], b.a[5]))
        if used and ctx.nontrivial is None:
            ne = len(case.get("rawenv", []))
            ctx.nontrivial = ["%s/env %s" % (case["mode"], "<240" if ne < 240 else "240-260" if ne <= 260 else ">260")]
            ctx.nontrivial += sorted({"real " + OP.name(o[0] if isinstance(o[0], int) else getattr(OP, o[0]))
                                      for q in case["rout"] for o in q
                                      if o[0] in ("SYSTEM", "EXEC", "FORK", "EXIT", "DLOPEN", "DLCLOSE")})


REAL = {OP.SYSTEM, OP.EXEC, OP.FORK, OP.EXIT, OP.DLOPEN, OP.DLCLOSE}
END = {CB.begin_process_exit, CB.fini_process, CB.fini_library, CB.fini_thread}


def flows(r):
    """Results of the real calls and the handlers run, per process in order of appearance."""
    out = []
    order = []
    for e in r.log:
        if e.type == T.MAIN and not order:
            order.append(e.pid)
        if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0 and e.pid not in order:
            order.append(e.pid)
    for pid in order:
        L = []
        for e in r.log:
            if e.pid != pid:
                continue
            if e.type == T.RES:
                if e.code == OP.SYSTEM:
                    L.append(("system", e.a[1] & ~0x80, e.a[2] if e.a[1] == -1 else 0, e.a[3] == e.a[4]))
                elif e.code == OP.EXEC:
                    L.append(("execve", e.a[1], 0 if e.a[1] == 0 else e.a[2]))
                elif e.code == OP.FORK:
                    L.append(("fork", e.a[1] > 0))
                elif e.code == OP.WAITCHILD:
                    L.append(("wait", e.a[1] > 0, e.a[2] & ~0x80))
                elif e.code == OP.DLOPEN:
                    L.append(("dlopen", e.a[1] != 0, e.a[2]))
                elif e.code == OP.DLCLOSE:
                    L.append(("dlclose", e.a[1]))
            elif e.type == T.LIBC:
                L.append(("lib", e.code, e.a[0]))
            elif e.type == T.HANDLER and e.a[0] not in (6, 17):
                L.append(("handler", e.a[0]))
        out.append(L)
    return out


def diff(a, b):
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if p != q:
                return "%s, natively %s" % (p, q)
        if len(x) != len(y):
            return "%d calls returned, natively %d" % (len(x), len(y))
    return "%d processes, natively %d" % (len(a), len(b))


CHECK = Check()
