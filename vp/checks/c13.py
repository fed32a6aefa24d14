"""Dispositions read back, native against monitored."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap, set_st, sig_st, M64

anysig_st = st.one_of(sig_st, sig_st, st.sampled_from([9, 19, 32, 33, 0, -1, 65, 66, 128, 129, 1000, -(1 << 31), (1 << 31) - 1]))
# flags the kernel knows
flags_st = st.lists(st.sampled_from([SA_NOCLDSTOP, SA_NOCLDWAIT, SA_ONSTACK, SA_RESTART, SA_NODEFER, SA_RESETHAND]),
                    max_size=4, unique=True).map(sum)


@st.composite
def ops_st(draw, p, meta, depth, pool):
    out = []
    sg = lambda: draw(st.sampled_from(pool)) if draw(st.integers(0, 3)) else draw(anysig_st)
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 11))
        if k <= 5:
            kind = draw(st.integers(0, 5))
            fl = draw(flags_st) | (SA_SIGINFO if kind >= 4 or kind < 2 and draw(st.integers(0, 5)) == 0 else 0)
            out.append(["SIGACTION", sg(), kind, fl, draw(set_st), draw(st.sampled_from([3, 3, 3, 1, 2, 2, 0]))])
        elif k <= 7:
            out.append(["SIGNAL", sg(), draw(st.integers(0, 3))])
        elif k == 8:
            out.append(["MSIGACTION", sg(), draw(st.sampled_from([1, 1, -77])),
                        draw(flags_st), draw(set_st), draw(st.integers(0, 1))])
        elif k == 9 and depth < 2 and meta["n"] < 4:
            meta["n"] += 1
            s = p.slot()
            sub = draw(ops_st(p, meta, depth + 1, pool)) + [["RETURN", 1]]
            out += [create(s, p.arg(p.new(sub))), ["JOIN", s]]
        elif k == 10 and depth < 2 and meta["f"] < 3:
            meta["f"] += 1
            s = meta["f"]
            sub = draw(ops_st(p, meta, depth + 1, pool)) + [["EXIT", EX._exit, 2]]
            out += [["FORK", s, 0, p.new(sub)], ["WAITCHILD", s]]
        elif k == 11:
            # a delivery in between
            s = draw(st.sampled_from([10, 12, 40]))
            out.append(["SIGACTION", s, draw(st.sampled_from([1, 2, 4, 5])), draw(st.sampled_from([0, SA_RESETHAND])), 0, 3])
            if out[-1][2] >= 4:
                out[-1][3] |= SA_SIGINFO
            out.append(["RAISE", 0, s])
    return out


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    meta = {"n": 0, "f": 0}
    pool = draw(st.lists(anysig_st, min_size=1, max_size=3))
    p.rout[0] += draw(ops_st(p, meta, 0, pool))
    # read everything back
    for s in sorted({o[1] for q in p.rout for o in q if o[0] in ("SIGACTION", "SIGNAL", "MSIGACTION")}):
        p.rout[0].append(["SIGACTION", s, 0, 0, 0, 2])
    p.rout[0].append(["RETURN", 3])
    cfg = {}
    if draw(st.integers(0, 3)) == 0:
        cfg = {"SIGACT_INLIB": bits(draw(st.lists(sig_st, min_size=1, max_size=3))), "SIGACT_RET": 1,
               "SIGACT_USEACT": draw(st.integers(0, 1)), "SIGACT_WHEN": draw(st.integers(0, 4)), "SIGACT_FLAGS": draw(flags_st), "SIGACT_MASK": draw(set_st)}
    env = {"MONITOR_DEBUG": "1"} if draw(st.integers(0, 9)) == 0 else {}
    ign = draw(st.one_of(st.just(0), st.just(0), st.lists(sig_st, max_size=4).map(bits)))
    return p.case(mode, cfg=cfg, env=env, inhign=ign)


class Check(BaseCheck):
    id = "C13"
    modes = ["dyn", "native", "static"]
    quick = (45, 8000)
    rule = ("A case is a generated sequence of sigaction and signal calls on valid, reserved and invalid signal numbers "
            "(any handler, flags, mask; with and without new and old action), in main, threads and forked children, "
            "with registrations by the client, deliveries and ignored signals inherited at start, run natively and "
            "monitored. Non-trivial: a disposition that the program had set was read back. Distinct by program text.")
    assumptions = ["after signal() only the handler is compared",
                   "the bits of SIGKILL and SIGSTOP in a mask and the kernel's restorer flag are not compared"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        n = ctx.run(case, mode="native")
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ops = opmap(case)
        fr, fn = flow(r, ops), flow(n, ops)
        if not ctx.expect(set(fr) == set(fn), "different calls returned"):
            return
        back = 0
        for k in sorted(fr):
            if not ctx.expect(fr[k] == fn[k], "%s: %s, natively %s" % (ops[k], fr[k], fn[k])):
                break
            if ops[k][0] == "SIGACTION" and fn[k][0] == 0 and fn[k][2] > 0 or ops[k][0] == "SIGNAL" and fn[k][1] > 0:
                back += 1
        if back:
            ctx.nontrivial = ["%s/%s" % (case["mode"], "inherited" if case.get("inhign") else "plain")]
            if any(o[0] == "MSIGACTION" for q in case["rout"] for o in q) or case.get("cfg"):
                ctx.nontrivial.append("registrations")


def flow(r, ops):
    """What each call returned; flags and masks only where sigaction set them last."""
    out = {}
    bysignal = {}
    for e in r.log:
        if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0:
            bysignal[e.pid] = dict(bysignal.get(e.a[3], {}))
        S = bysignal.setdefault(e.pid, {})
        if e.type == T.RES and e.code == OP.SIGACTION:
            o = ops[e.a[0]]
            sig = o[1]
            v = [e.a[1], e.a[2] if e.a[1] else 0, e.a[3]]
            if e.a[1] == 0 and o[5] & 2 and not S.get(sig):
                v += [e.a[4] & 0xffffffff & ~SA_RESTORER, e.a[5] & M64 & ~bits([9, 19])]
            out[e.a[0]] = tuple(v)
            if e.a[1] == 0 and o[5] & 1:
                S[sig] = 0
        elif e.type == T.RES and e.code == OP.SIGNAL:
            o = ops[e.a[0]]
            out[e.a[0]] = ("signal", e.a[1], e.a[2] if e.a[1] == 98 else 0)
            if e.a[1] != 98:
                S[o[1]] = 1
        elif e.type == T.HANDLER:
            pass
    return out


CHECK = Check()
