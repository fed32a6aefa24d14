"""Stack bottoms and start-function queries, by unwinding generated stacks."""
from hypothesis import strategies as st

from .. import subset
from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

BT2 = OP.BT + 1000


@st.composite
def ops_st(draw, p, meta, depth, where="thread"):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 11))
        if k <= 4:
            out.append(["BT", draw(st.sampled_from([0, 0, 1, 3, 10, 60, 200])), int(draw(st.integers(0, 5)) == 0)])
        elif k == 5:
            out.append(["QUERY"])
        elif k <= 7 and depth < 3 and meta["n"] < 6:
            meta["n"] += 1
            s = p.slot()
            ign = draw(st.integers(0, 5)) == 0
            r = p.new()
            body = p.rout[r]
            body += draw(ops_st(p, meta, 3 if ign else depth + 1))
            body.append([draw(st.sampled_from(["RETURN", "RETURN", "PEXIT"])), 1])
            at = draw(st.sampled_from([AT.null, AT.null, AT.default, AT.stacksize, AT.stack, AT.guard]))
            sz = draw(st.sampled_from([65536, 200000, 1 << 20])) if at in (AT.stacksize, AT.stack) else 0
            out.append(create(s, p.arg(r), fn=draw(st.integers(0, 3)), attr=at, stack=sz,
                              hint=HINT.IGNORE if ign else HINT.NONE))
            join = ["JOIN", s]
            if draw(st.integers(0, 2)):
                out.append(join)
            else:
                meta["late"].append(join)
        elif k == 8 and depth < 3 and meta["f"] < 4:
            meta["f"] += 1
            s = meta["f"]
            sub = draw(ops_st(p, meta, depth + 1)) + [["EXIT", draw(st.sampled_from([EX._exit, EX.exit])), 2]]
            out += [["FORK", s, draw(st.sampled_from([0, 0, 1])) and 0, p.new(sub)], ["WAITCHILD", s]]
        elif k == 9 and meta["h"] < 3:
            sg = [10, 12, 40][meta["h"]]
            meta["h"] += 1
            out += [["SIGACTION", sg, draw(st.sampled_from([2, 4])), 0, 0, 1,
                     p.new([["BT", draw(st.integers(0, 20)), 0], ["QUERY"]]) + 1], ["RAISE", draw(st.integers(0, 1)), sg]]
            if out[-2][2] == 4:
                out[-2][3] = SA_SIGINFO
        elif k == 10:
            out.append(["CALL", p.new([["BT", draw(st.integers(0, 5)), 0]]), draw(st.integers(1, 3))])
        elif k == 11 and meta["n"]:
            out.append(["CLEANUP", p.new([["BT", 2, 0]]), 5, draw(st.integers(0, 1))])
    return out


@st.composite
def cases(draw):
    p = Prog()
    meta = {"n": 0, "f": 0, "h": 0, "late": []}
    b = draw(ops_st(p, meta, 0))
    # threads that were not joined at once are joined by main at the end
    late = [j for j in meta["late"] if any(o[0] == "CREATE" and o[1] == j[1] for o in b)]
    p.rout[0] += b + [["BT", 1, 0]] + late + [["BT", 1, 1], ["RETURN", 3]]
    if meta["f"]:
        # the unwinder takes the loader's lock, which a child forked at that
        # moment would never get: with forks, one thread runs at a time
        for r in p.rout:
            for i in range(len(r) - 1, -1, -1):
                if r[i][0] == "CREATE" and not (i + 1 < len(r) and r[i + 1] == ["JOIN", r[i][1]]):
                    r.insert(i + 1, ["JOIN", r[i][1]])
        p.rout[0][:] = [o for i, o in enumerate(p.rout[0]) if o[0] != "JOIN" or p.rout[0][i - 1][0] == "CREATE"]
    gates = []
    for _ in range(draw(st.integers(0, 1))):
        r = p.new([["BT", draw(st.integers(0, 5)), 0]])
        gates.append(gate(draw(st.sampled_from(["init_thread", "at_main", "init_process"])), nth=draw(st.integers(0, 3)),
                          phase=0, what=GW.RUN | r << 8))
    return p.case(draw(mode_st), gates=gates, cfg={"STACKADD": draw(st.sampled_from([0, 0, 65536]))})


class Check(BaseCheck):
    id = "C20"
    modes = ["dyn", "static"]
    quick = (45, 6000)
    rule = ("A case is a generated program which unwinds its stack at generated call depths in main, in threads (attributes, nesting, "
            "stack sizes and stacks of its own, ignored by the client or not), in signal handlers, cleanup regions, callbacks and in forked children of any "
            "thread, queries every frame, and scans the addresses around the start frame. Non-trivial: a stack was unwound. "
            "Distinct by program text." + subset.RULE)
    assumptions = ["the unwinder is libgcc's", "in callbacks before the application runs, only the wide query applies"]

    def prepare(self, build):
        subset.prepare(build)

    def strategy(self, tier):
        return subset.mixed(cases())

    def judge(self, case, ctx):
        if case.get("kind") == "subset":
            return subset.judge(case, ctx, self.build, ["stack"])
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 0x300, "status %#x" % r.status)
        tags = set()
        kind = {}       # (pid, kt) -> "main", "thread", "ignored"
        stack = {}      # (pid, kt) -> its T_START
        bottom = {}
        incb = {}
        for e in r.log:
            k = (e.pid, e.kt)
            if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0:
                # the child continues on the stack of the thread that forked
                par = [x for x in r.log[:] if x.type == T.OP and x.code == OP.FORK and x.a[0] == e.a[0] and x.pid == e.a[3] and x.i < e.i]
                if par:
                    q = (par[-1].pid, par[-1].kt)
                    for d in (kind, stack, bottom):
                        if q in d:
                            d[k] = d[q]
                    tags.add("child of %s" % kind.get(q))
            elif e.type == T.MAIN:
                kind[k] = "main"
            elif e.type == T.CB_ENTER and e.code == CB.init_thread:
                kind[k] = "thread"
                incb[k] = True
            elif e.type == T.CB_ENTER and e.code in (CB.at_main, CB.init_process) and e.pid == r.main_pid:
                incb[k] = True
                kind[k] = "main"
            elif e.type == T.CB_LEAVE and e.code in (CB.init_thread, CB.at_main, CB.init_process):
                incb[k] = False
            elif e.type == T.START:
                kind.setdefault(k, "ignored")
                stack[k] = e
            elif e.type == T.RES and e.code == OP.BT:
                if k not in kind:
                    continue        # a callback in a child that is not yet known
                n, wide, narrow, proc, thr, beyond, odd = e.a[1:8]
                kd = kind[k]
                tags.add("%s/%s%s" % (case["mode"], kd, "/callback" if incb.get(k) else ""))
                want = {"main": (1, 1, 1, 0), "thread": (1, 1, 0, 1), "ignored": (0, 0, 0, 0)}[kd]
                if incb.get(k):
                    narrow = want[1]
                if not ctx.expect((wide, narrow, proc, thr) == want and odd == 0,
                                  "%s%s: frames recognised: wide %d narrow %d process %d thread %d, expected %s" % (
                                      (kd, " (callback)" if incb.get(k) else "", wide, narrow, proc, thr, want))):
                    return
                ctx.expect(n > 1, "could not unwind")
            elif e.type == T.RES and e.code == BT2:
                if k not in kind:
                    continue
                sb, inner, loc, _, bits_, outer, scan = e.a[1:8]
                ctx.expect(bits_ == 0, "an address outside of the start functions was recognised (%#x)" % bits_)
                ctx.expect(scan == 0, "queries disagree at addresses near the start frame (%#x)" % scan)
                if kind[k] == "ignored":
                    ctx.expect(sb == 0, "stack bottom %#x in an ignored thread" % sb)
                    continue
                if not ctx.expect(sb > loc and sb >= inner and (outer == 0 or sb < outer),
                                  "stack bottom %#x, a local at %#x, start frame from %#x to %#x" % (sb, loc, inner, outer)):
                    return
                if k in stack and stack[k].a[6] > 0 and not incb.get(k):
                    lo, hi = stack[k].a[6], stack[k].a[6] + stack[k].a[4]
                    ctx.expect(lo < sb < hi, "stack bottom %#x outside of the thread's stack %#x-%#x" % (sb, lo, hi))
                self.same(ctx, bottom, k, sb)
            elif e.type == T.RES and e.code == OP.QUERY and k in kind and kind[k] != "ignored":
                self.same(ctx, bottom, k, e.a[7])
        ctx.nontrivial = sorted(tags)

    @staticmethod
    def same(ctx, bottom, k, sb):
        old = bottom.setdefault(k, sb)
        ctx.expect(old == sb, "stack bottom was %#x, is %#x in the same thread" % (old, sb))


CHECK = Check()
