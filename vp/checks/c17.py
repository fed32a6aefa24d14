"""MPI initialisation and finalisation: one pair of callbacks per outermost call."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap

mpimode_st = st.sampled_from(["dynmpi", "dynmpi", "plugmpi", "staticmpi"])
# rank and size of the first communicator: mostly small, some beyond 8, 16 and 24 bits
SIZE = st.one_of(st.integers(1, 50), st.integers(1, 50), st.sampled_from([100, 200, 32700, 65500, 70000, 1 << 24, 2000000000]))
RANK = st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from([120, 250, 32760, 65530, 69999, 1 << 23, 1999999999]))
NEST = st.lists(st.sampled_from([1, 2, 4, 8, 16, 32, 64, 256, 512, 1024]), max_size=5, unique=True).map(sum)
INIT_CBS = {CB.mpi_pre_init: 0, CB.init_mpi: 2}
FINI_CBS = {CB.fini_mpi: 0, CB.mpi_post_fini: 2}
NATIVE = {"dynmpi": "nativempi", "staticmpi": "nativempi", "plugmpi": "nativeplugmpi"}


def mpi_op(draw, mode, fns, var=None, p=None, ok=False):
    fn = draw(st.sampled_from(fns))
    v = draw(st.integers(0, 3)) if var is None else var
    pm = (draw(st.integers(0, 1)) if p is None else p) if mode != "staticmpi" else 0
    ret = 0 if ok or draw(st.integers(0, 3)) else draw(st.sampled_from([1, 15, -1]))
    return ["MPI", fn, v, draw(st.integers(0, 6)), pm, int(draw(st.integers(0, 4)) == 0), ret, draw(st.integers(0, 3))]


@st.composite
def body_st(draw, p, mode, meta, depth):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 10))
        if k <= 3:
            out.append(mpi_op(draw, mode, [0, 1]))
        elif k <= 5:
            out.append(mpi_op(draw, mode, [2]))
        elif k <= 7:
            out.append(mpi_op(draw, mode, [3, 4]))
        elif k == 8 and depth < 2 and meta["n"] < 2:
            meta["n"] += 1
            s = p.slot()
            out += [create(s, p.arg(p.new(draw(body_st(p, mode, meta, depth + 1)) + [["RETURN", 1]]))), ["JOIN", s]]
        elif k == 9 and depth < 2 and meta["f"] < 2:
            meta["f"] += 1
            s = meta["f"]
            out += [["FORK", s, 0, p.new(draw(body_st(p, mode, meta, depth + 1)) + [["EXIT", EX.exit, 2]])], ["WAITCHILD", s]]
        elif k == 10 and depth == 0 and not meta["a"]:
            meta["a"] = 1
            out.append(["ATEXIT", p.new([mpi_op(draw, mode, [2])])])
    return out


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mpimode_st)
    meta = {"n": 0, "f": 0, "a": 0}
    p.rout[0] += draw(body_st(p, mode, meta, 0)) + [["RETURN", 3]]
    cfg = {"MPI_NEST": draw(NEST), "MPI_SIZE": draw(SIZE), "MPI_RANK": draw(RANK),
           "MPI_PROVIDED": draw(st.integers(0, 3)), "SETSIZERANK": draw(st.sampled_from([0, 0, 1, 2])),
           "PRESETSIZE": 77, "PRESETRANK": 33}
    gates = []
    if draw(st.integers(0, 4)) == 0:
        # the client asks for the rank inside its callbacks
        r = p.new([["MPI", 3, draw(st.integers(0, 3)), 0, 0, 0, 0, 0]])
        gates.append(gate(draw(st.sampled_from(["init_mpi", "fini_mpi", "mpi_pre_init"])), phase=0, what=GW.RUN | r << 8))
    bare = int(draw(st.integers(0, 5)) == 0)
    return p.case(mode, cfg=cfg, gates=gates, bare=bare, argv=draw(st.lists(st.sampled_from(["a", "", "b c", "-x"]), max_size=3)),
                  env={"MONITOR_DEBUG": "1"} if draw(st.integers(0, 19)) == 0 else {})


class Check(BaseCheck):
    id = "C17"
    modes = ["dynmpi", "plugmpi", "staticmpi", "bare"]
    quick = (40, 8000)
    rule = ("A case is a generated sequence of MPI initialise, finalise, rank and size calls through the C and Fortran names "
            "(plain, one and two underscores, profiling names), with and without thread level, results 0 and not, in main, "
            "threads, forked children and exit handlers, over a fake MPI library with a generated nesting of its entry points, linked, "
            "loaded as a local plugin or statically linked, and run natively for comparison. Non-trivial: an initialise or "
            "finalise call was made. Distinct by program text and configuration.")
    assumptions = ["MPI is a stand-in library; MPI calls are not made by several threads at once",
                   "profiling names are called directly only in the dynamic forms"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        n = ctx.run(case, mode=NATIVE[case["mode"]], gates=[])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ops = opmap(case)
        fr, fn = flow(r, ops, case), flow(n, ops, case)
        if ctx.expect(set(fr) == set(fn), "different calls returned"):
            for k in sorted(fr):
                if not ctx.expect(fr[k] == fn[k], "%s: %s, natively %s" % (ops[k[1]], fr[k], fn[k])):
                    break
        tags = set()
        if case.get("bare"):
            if any(o[0] == "MPI" for o in ops.values()):
                ctx.nontrivial = [case["mode"] + "/no client"]
            return
        for pid, evs in by_pid(r).items():
            for kt, tev in Proc(evs).kt.items():
                if not self.thread(case, ctx, tev, ops, tags, r):
                    return
        if tags:
            ctx.nontrivial = [case["mode"]] + sorted(tags)

    def thread(self, case, ctx, tev, ops, tags, r):
        cur = None      # the outermost MPI call under way
        depth = 0
        for e in tev:
            if e.type == T.OP and e.code == OP.MPI:
                depth += 1
                if depth == 1:
                    cur = {"op": ops[e.a[0]], "n": 0, "real": 0}
            elif e.type == T.RES and e.code == OP.MPI:
                depth -= 1
                if depth:
                    continue
                fn, var = cur["op"][1], cur["op"][2]
                want = 4 if fn <= 2 else 0
                if not ctx.expect(cur["n"] == want, "%s: %d of %d callback events" % (cur["op"], cur["n"], want)):
                    return False
                if fn <= 2:
                    tags.add("%s/%s%s" % (["init", "init thread", "finalize"][fn], ["C", "f0", "f1", "f2"][var],
                                          "/pmpi" if cur["op"][4] else ""))
                if fn <= 1:
                    if cur["real"] > 1:
                        tags.add("nested %d" % min(cur["real"], 4))
                    c, l = cur["cb"], cur["leave"]
                    if var == 0 and cur["op"][5]:
                        ctx.expect(c.a[0] == -1 and l.a[0] == 0, "init callback got arguments the program did not pass")
                    elif var == 0:
                        ctx.expect(l.a[0] == e.a[5] and c.a[0] == e.a[6] and c.a[2] == 1,
                                   "init callback did not get the program's arguments: argc %d, program %d" % (c.a[0], e.a[6]))
                    else:
                        name = r.cstr(c.a[1]) if c.a[1] >= 0 else None
                        exe = {"dynmpi": b"/vapp_mpi", "plugmpi": b"/vapp_plug", "staticmpi": b"/vapp_staticmpi"}[case["mode"]]
                        ctx.expect(c.a[0] == 1 + len(case.get("argv", [])) and name and name.endswith(exe) and c.a[2] == 1,
                                   "init callback got argc %d, argv[0] %r, terminated %d" % (c.a[0], name, c.a[2]))
                cur = None
            elif e.type == T.MPI and cur is not None and e.code <= 2:
                cur["real"] += 1
                if not ctx.expect(cur["n"] == 2, "the MPI library was entered outside of the two callbacks"):
                    return False
            elif e.type in (T.CB_ENTER, T.CB_LEAVE) and (e.code in INIT_CBS or e.code in FINI_CBS):
                if not ctx.expect(cur is not None and cur["op"][1] <= 2, "%s callback without a call" % CB.name(e.code)):
                    return False
                t = INIT_CBS if cur["op"][1] <= 1 else FINI_CBS
                if not ctx.expect(e.code in t and cur["n"] == t[e.code] + (e.type == T.CB_LEAVE),
                                  "%s: %s callback out of place" % (cur["op"], CB.name(e.code))):
                    return False
                if e.type == T.CB_LEAVE and e.code == CB.mpi_pre_init:
                    ctx.expect(cur["real"] == 0, "pre-init callback after the library was entered")
                cur["n"] += 1
                if e.code == CB.init_mpi:
                    cur["cb" if e.type == T.CB_ENTER else "leave"] = e
        return True


def flow(r, ops, case):
    """Results of each call, and how the library was entered in it."""
    out = {}
    cnt = {}
    pids = {}
    cur = {}
    for e in r.log:
        q = pids.setdefault(e.pid, len(pids))
        if e.type == T.OP and e.code == OP.MPI:
            cur.setdefault(e.kt, []).append([])
        elif e.type == T.MPI and cur.get(e.kt) and e.code <= 2:
            cur[e.kt][0].append((e.code, e.a[0], e.a[1], e.a[2], e.a[3] != 0, e.a[4] != 0, e.a[5]))
        elif e.type == T.RES and e.code == OP.MPI and cur.get(e.kt):
            f = cur[e.kt].pop()
            if cur[e.kt]:
                continue
            k = (q, e.a[0])
            c = cnt[k] = cnt.get(k, 0) + 1
            out[k + (c,)] = (e.a[1], e.a[2], e.a[6], f)
    return out


CHECK = Check()
