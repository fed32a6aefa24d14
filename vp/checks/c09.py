"""exec: native against monitored."""
import os

from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

FX = "@BIN@/fx"
LONG = "L" * 4200
COMPS = [FX + "/d1", FX + "/d2", FX + "/d3", FX + "/d4", FX + "/none", "@BIN@/vdump", "", "", ".", "d1", "d2",
         FX + "/d1/", "/" + LONG, "/" + "x/" * 2040, "/bin", FX]
NAMES = ["prog", "prog", "only1", "nox", "missing", "scr", "lnk", "dang", "vscrpt", "d1/prog", "./prog", "", "x" * 300,
         FX + "/d1/prog", FX + "/d2/nox", FX + "/d4/lnk", FX + "/d4/dang", FX + "/none/prog", FX + "/d1/prog/",
         FX + "/d3/scr", FX + "/d1/../d1/only1", "//bin//sh", "sh"]

arg_st = st.one_of(
    st.sampled_from(["", " ", "a b", "'", '"', "$HOME", "*", "-x", "--", "\\", "\t\n", "\x80\xff", "=", "x" * 4095]),
    st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=20),
    st.integers(0, 999).map(str))
env_st = st.one_of(
    st.builds(lambda a, b: "V%d=%s" % (a, b), st.integers(0, 30),
              st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=12)),
    st.sampled_from(["", "NOEQUALS", "=", "LD_PRELOADX=1", "LD_PRELOA=2", "X=" + "y" * 5000, "PATH=/nowhere",
                     "IFS=x", "MONITOR_NONE=1"]))
count_st = st.one_of(st.integers(0, 12), st.sampled_from([62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 256, 257, 511,
                                                           512, 513, 590]))


@st.composite
def args_st(draw):
    n = draw(count_st)
    base = draw(st.lists(arg_st, min_size=1, max_size=8))
    out = [base[i % len(base)] + (str(i) if i >= len(base) else "") for i in range(n)]
    return out if sum(map(len, out)) < 100000 else [x[:100] for x in out]


@st.composite
def envs_st(draw):
    n = draw(st.one_of(st.integers(0, 8), st.sampled_from([100, 248, 249, 250, 251, 300])))
    base = draw(st.lists(env_st, min_size=1, max_size=8))
    out = [base[i] if i < len(base) else "W%d=%s" % (i, base[i % len(base)][:30]) for i in range(n)]
    return out


@st.composite
def exec_op(draw):
    kind = draw(st.integers(0, 5))
    name = draw(st.sampled_from(NAMES))
    if kind not in (1, 4):
        # execv of a text file without #! is an executable the system refuses
        if name == "vscrpt":
            name = "prog"
        if draw(st.integers(0, 15)) == 0:
            name = None
    argv = draw(args_st())
    base = name.split("/")[-1] if name else ""
    if base == "sh":
        argv = ["sh", "-c", "exec @BIN@/vdump viash"]
    flags = 0
    if kind in (2, 5):
        env = draw(envs_st())
        envc = len(env)
        flags = draw(st.integers(0, 1))
        if kind == 5 and draw(st.integers(0, 9)) == 0:
            env, envc, flags = None, 0, 0
    else:
        env, envc = [], -1
    return ["EXEC", kind, name, argv, len(argv), env, envc, flags]


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    body = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 9))
        if k == 0:
            body.append(["CHDIR", draw(st.sampled_from([FX + "/d1", FX + "/d2", FX, "/"]))])
        elif k <= 3:
            comps = draw(st.lists(st.sampled_from(COMPS), min_size=0, max_size=4))
            # (libc searches the current directory after a component it skips as overlong)
            comps = [c for i, c in enumerate(comps) if LONG not in c or i == len(comps) - 1]
            body.append(["SETENV", "PATH", ":".join(comps)])
        elif k == 4:
            body.append(["UNSETENV", "PATH"])
        elif k == 5:
            body.append(["SETENV", "V%d" % draw(st.integers(0, 9)), draw(arg_st)])
        else:
            body.append(draw(exec_op()))
    body.append(draw(exec_op()))
    body.append(["RETURN", 5])
    who = draw(st.sampled_from(["main", "main", "child", "vchild", "thread"]))
    main = p.rout[0]
    if who == "main":
        main += body
    elif who in ("child", "vchild"):
        body[-1] = ["EXIT", EX._exit, 5]
        main += [["FORK", 0, int(who == "vchild"), p.new(body)], ["WAITCHILD", 0], ["RETURN", 6]]
    else:
        s = p.slot()
        main += [create(s, p.arg(p.new(body))), ["JOIN", s], ["RETURN", 6]]
    return p.case(mode, meta={"who": who})


def dump_of(r, e, libs):
    parts = r.raw[e.a[2]:e.a[2] + e.a[3]].split(b"\0")[:-1]
    argv, env = parts[:e.a[0]], parts[e.a[0]:]
    # a shell in between adds variables of its own
    env = [x for x in env if not x.startswith(b"LD_PRELOAD=" + libs) and not x.startswith(b"_=")]
    return argv, env, r.cstr(e.a[6])


class Check(BaseCheck):
    id = "C09"
    modes = ["dyn", "native", "static"]
    quick = (40, 6000)
    rule = ("A case is a generated sequence of exec calls (all six variants, argument lists of 0 to 590 strings, given "
            "or inherited environments, generated search paths with missing, empty, relative and overlong components, "
            "changes of directory), by main, a thread or a forked child, run natively and monitored. Non-trivial: at "
            "least one exec was attempted. Distinct by program text.")
    assumptions = ["targets that have execute permission but that the system refuses to execute are not generated"]

    def prepare(self, build):
        fx = os.path.join(build.bin, "fx")
        v = os.path.join(build.bin, "vdump")
        for d in ("d1", "d2", "d3", "d4"):
            os.makedirs(os.path.join(fx, d))
        j = lambda *a: os.path.join(fx, *a)
        os.link(v, j("d1", "prog"))
        os.link(v, j("d1", "only1"))
        os.link(v, j("prog"))
        for f in (j("d2", "prog"), j("d2", "nox")):
            open(f, "w").write("no\n")
            os.chmod(f, 0o644)
        open(j("d3", "prog"), "w").write("exec %s d3prog \"$@\"\n" % v)
        open(j("d3", "vscrpt"), "w").write("exec %s d3script \"$@\"\n" % v)
        open(j("d3", "scr"), "w").write("#!/bin/sh\nexec %s d3scr \"$@\"\n" % v)
        for f in ("prog", "vscrpt", "scr"):
            os.chmod(j("d3", f), 0o755)
        os.symlink(j("d1", "only1"), j("d4", "lnk"))
        os.symlink(j("d1", "none"), j("d4", "dang"))
        for d in ("", "d1", "d2", "d3", "d4"):
            os.chmod(j(d), 0o755)

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        # libc's own execl looks past a missing argv[0]; the array forms are the same call
        n = ctx.run(case, mode="native", rout=[
            [[o[0], o[1] + 3] + o[2:] if o[0] == "EXEC" and o[1] < 3 and o[4] == 0 else o for o in q]
            for q in case["rout"]])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        libs = os.path.join(self.build.bin, "client.so").encode()
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ctx.expect(sorted(k[1] for k in r.kids) == sorted(k[1] for k in n.kids), "status of a child differs")
        rx = [tuple(e.a[:3]) for e in r.log if e.type == T.RES and e.code == OP.EXEC]
        nx = [tuple(e.a[:3]) for e in n.log if e.type == T.RES and e.code == OP.EXEC]
        ctx.expect(rx == nx, "failed execs return %s, natively %s" % (rx, nx))
        rd = [dump_of(r, e, libs) for e in r.log if e.type == T.DUMP]
        nd = [dump_of(n, e, libs) for e in n.log if e.type == T.DUMP]
        if ctx.expect(len(rd) == len(nd), "%d programs ran, natively %d" % (len(rd), len(nd))):
            for a, b in zip(rd, nd):
                ctx.expect(a[0] == b[0], "arguments %s, natively %s" % (str(a[0])[:80], str(b[0])[:80]))
                # the statically linked program has no other variables either
                ctx.expect(a[1] == b[1], "environment %s, natively %s" % (str(a[1])[:80], str(b[1])[:80]))
                ctx.expect(a[2] == b[2], "directory differs")
        succ = False
        for pid, evs in by_pid(r).items():
            ims = split_exec(evs)
            im = ims[0]
            pend = [e for e in im if e.type == T.OP and e.code == OP.EXEC]
            pr = Proc(im)
            b, f = pr.cb("begin_process_exit"), pr.cb("fini_process")
            ctx.expect(len(b) == 1 and len(f) == 1, "%d begin_process_exit and %d fini_process" % (len(b), len(f)))
            # failed ones: nothing in between
            cur = {}
            for e in im:
                if e.type == T.OP and e.code == OP.EXEC:
                    cur[e.kt] = []
                elif e.type == T.RES and e.code == OP.EXEC:
                    ctx.expect(not cur.get(e.kt), "callbacks %s in a failed exec" % cur.get(e.kt))
                    cur.pop(e.kt, None)
                elif e.type == T.CB_ENTER and e.kt in cur:
                    cur[e.kt].append(CB.name(e.code))
            if cur and f and b:
                succ = True
                ctx.expect(f[0].a[0] == EXIT_EXEC and b[0].a[0] == EXIT_EXEC, "how is %d, expected exec" % f[0].a[0])
                ctx.expect(f[0].kt in cur, "fini_process in another thread than the exec")
                fl = pr.cb("fini_library")
                ctx.expect(len(fl) == (1 if case["mode"] == "dyn" else 0), "%d fini_library" % len(fl))
            elif f:
                ctx.expect(f[0].a[0] == EXIT_NORMAL, "how is %d, expected normal exit" % f[0].a[0])
        if any(e.type == T.OP and e.code == OP.EXEC for e in r.log):
            kinds = sorted({e.a[1] for e in r.log if e.type == T.OP and e.code == OP.EXEC})
            ctx.nontrivial = ["%s/%s/%s" % (case["mode"], case["meta"]["who"], "success" if succ else "failure")]
            ctx.nontrivial += ["exec kind %d" % k for k in kinds]


CHECK = Check()
