"""The size and rank the client sees."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap
from .c17 import mpimode_st, mpi_op, NEST, SIZE, RANK, NATIVE, flow


# what the client sets: anything
SETV = st.one_of(st.integers(-2, 400), st.integers(-2, 400), st.sampled_from([65536, -70000, 1 << 30, -(1 << 31), (1 << 31) - 1]))


@st.composite
def body_st(draw, p, mode, meta, depth, inited):
    """Returns (ops, initialised at the end); queries before initialisation fail."""
    out = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 13))
        if k <= 1 or k == 2 and not inited:
            out.append(mpi_op(draw, mode, [0, 1]))
            inited = True
        elif k <= 6:
            o = mpi_op(draw, mode, [3, 3, 3, 4])
            if not inited:
                o[6] = o[6] or 1
            out.append(o)
        elif k <= 8:
            out.append(["GETSIZERANK"])
        elif k == 9:
            out.append(["SETSIZERANK", draw(SETV), draw(SETV)])
        elif k == 10:
            out.append(mpi_op(draw, mode, [2]))
        elif k == 11 and depth < 2 and meta["n"] < 2:
            meta["n"] += 1
            s = p.slot()
            sub, inited = draw(body_st(p, mode, meta, depth + 1, inited))
            out += [create(s, p.arg(p.new(sub + [["RETURN", 1]]))), ["JOIN", s]]
        elif k == 12 and depth < 2 and meta["f"] < 2:
            meta["f"] += 1
            s = meta["f"]
            sub, _ = draw(body_st(p, mode, meta, depth + 1, inited))
            out += [["FORK", s, 0, p.new(sub + [["EXIT", EX.exit, 2]])], ["WAITCHILD", s]]
    return out, inited


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mpimode_st)
    meta = {"n": 0, "f": 0}
    b, inited = draw(body_st(p, mode, meta, 0, False))
    p.rout[0] += b + [["GETSIZERANK"], ["RETURN", 3]]
    cfg = {"MPI_NEST": draw(NEST), "MPI_SIZE": draw(SIZE), "MPI_RANK": draw(RANK),
           "MPI_PROVIDED": 1, "SETSIZERANK": draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
           "PRESETSIZE": draw(st.integers(-1, 99)), "PRESETRANK": draw(st.integers(-1, 99))}
    gates = []
    if draw(st.integers(0, 4)) == 0:
        r = p.new([["MPI", 3, draw(st.integers(0, 3)), draw(st.integers(0, 3)), 0, 0, 0, 0]])
        gates.append(gate("init_mpi", phase=0, what=GW.RUN | r << 8))
    return p.case(mode, cfg=cfg, gates=gates)


class Check(BaseCheck):
    id = "C18"
    modes = ["dynmpi", "plugmpi", "staticmpi"]
    quick = (40, 8000)
    rule = ("A case is a generated sequence of initialise, rank, size and finalise calls over seven communicators with different "
            "sizes and ranks, through the C, Fortran and profiling names, some failing, with settings and queries by the client "
            "at any point (also in its callbacks), rank queries made by the MPI library itself while it initialises, in main, threads and forked "
            "children. Non-trivial: a rank query succeeded or the client set the values. Distinct by program text and configuration.")
    assumptions = ["MPI is a stand-in library; queries before initialisation fail, as the standard requires",
                   "a rank query which the MPI library itself makes after initialisation counts like the program's (not judged)"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        n = ctx.run(case, mode=NATIVE[case["mode"]], gates=[])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ops = opmap(case)
        fr, fn = flow(r, ops, case), flow(n, ops, case)
        if ctx.expect(set(fr) == set(fn), "different calls returned"):
            for k in sorted(fr):
                if not ctx.expect(fr[k][:2] == fn[k][:2], "%s: %s, natively %s" % (ops[k[1]], fr[k], fn[k])):
                    break
        cfg = case["cfg"]
        S, R = cfg["MPI_SIZE"], cfg["MPI_RANK"]
        state = {}      # pid -> (size, rank, fixed, known)
        depth = {}
        tags = set()
        new = lambda: {"v": (-1, -1), "fixed": False, "known": True}
        for e in r.log:
            if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0 and e.pid != e.a[3]:
                state[e.pid] = dict(state.get(e.a[3], new()))
            s = state.get(e.pid)
            if s is None:
                # a forked child's callbacks come before its FORK result: wait for that
                if state and e.pid != r.main_pid:
                    continue
                s = state[e.pid] = new()
            seen = None
            d = depth.setdefault(e.kt, [])

            def put(v, how):
                if not s["fixed"]:
                    s["v"], s["fixed"] = v, True
                    tags.add(how)
                else:
                    tags.add("again")

            if e.type == T.OP and e.code == OP.MPI:
                d.append(ops[e.a[0]])
            elif e.type == T.RES and e.code == OP.MPI:
                o = d.pop()
                if o[1] == 3 and e.a[1] == 0 and not any(x[1] <= 1 for x in d):
                    ctx.expect(e.a[2] == R + 10 * o[3], "rank %d of communicator %d" % (e.a[2], o[3]))
                    put((S + 100 * o[3], R + 10 * o[3]), "query")
                seen = (e.a[3], e.a[4])
            elif e.type == T.MPI and e.code == 3 and d and d[0][1] == 2 and not s["fixed"]:
                s["known"] = False
            elif e.type == T.CB_LEAVE and e.code == CB.init_process and cfg["SETSIZERANK"] == 1 or \
                    e.type == T.CB_LEAVE and e.code == CB.init_mpi and cfg["SETSIZERANK"] == 2:
                put((cfg["PRESETSIZE"], cfg["PRESETRANK"]), "callback")
            elif e.type == T.RES and e.code == OP.SETSIZERANK:
                o = ops[e.a[0]]
                put((o[1], o[2]), "set")
                seen = (e.a[1], e.a[2])
            elif e.type == T.RES and e.code == OP.GETSIZERANK:
                seen = (e.a[1], e.a[2])
            elif e.type == T.CB_ENTER and e.code in (CB.mpi_pre_init, CB.fini_mpi, CB.mpi_post_fini):
                seen = (e.a[0], e.a[1])
            if seen is not None and s["known"]:
                if not ctx.expect(seen == s["v"], "event %d: the client sees size %d rank %d, expected %d %d" % ((e.i,) + seen + s["v"])):
                    return
                if seen == (-1, -1):
                    tags.add("unset")
        if tags - {"unset"}:
            ctx.nontrivial = [case["mode"]] + sorted(tags)


CHECK = Check()
