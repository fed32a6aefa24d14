"""New-thread information inside and outside of creations."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap

INSIDE = ["init_process", "init_thread_support", "thread_pre_create", "reset_stacksize", "thread_post_create"]
OUTSIDE = ["init_thread", "fini_thread", "at_main", "begin_process_exit", "fini_process", "pre_fork", "post_fork"]
Q = ["NEWINFO", 0]


@st.composite
def create_ops(draw, p, meta, depth):
    """One creation, with what the new thread does."""
    meta["n"] += 1
    s = p.slot()
    r = p.new()
    hint = draw(st.sampled_from([0, 0, 0, 0, HINT.IGNORE, HINT.STACK, 0x100]))
    body = draw(ops_st(p, meta, 9 if hint == HINT.IGNORE else depth + 1))
    body.append([draw(st.sampled_from(["RETURN", "RETURN", "PEXIT"])), 1])
    p.rout[r] += body
    at = draw(st.sampled_from([AT.null, AT.null, AT.default, AT.stacksize, AT.detached]))
    out = [create(s, p.arg(r), fn=draw(st.integers(0, 3)), attr=at, stack=100000 if at == AT.stacksize else 0,
                  hint=hint, hstack=draw(st.sampled_from([65536, 200000])) if hint == HINT.STACK else 0)]
    if at != AT.detached:
        if draw(st.integers(0, 2)):
            out.append(["JOIN", s])
        elif depth == 0:
            meta["late"].append(["JOIN", s])
    return out


@st.composite
def ops_st(draw, p, meta, depth):
    out = []
    for _ in range(draw(st.integers(0 if depth else 1, 4))):
        k = draw(st.integers(0, 9))
        if k <= 3 and meta["n"] < 10 and depth < 3:
            out += draw(create_ops(p, meta, depth))
        elif k <= 5:
            out.append(draw(st.sampled_from([Q, Q, ["NEWINFO", 1], ["QUERY"]])))
        elif k == 6 and depth < 3:
            out += [["NEWTHREADS", 0]] + draw(ops_st(p, meta, depth + 1)) + [["NEWTHREADS", 1]]
        elif k == 7 and meta["f"] < 2 and depth < 3:
            meta["f"] += 1
            out += [["FORK", meta["f"], 0, p.new([Q] + draw(ops_st(p, meta, depth + 1)) + [["EXIT", EX._exit, 2]])],
                    ["WAITCHILD", meta["f"]]]
        elif k == 8 and depth < 9:
            z = p.slot()
            out.append(["CALL", p.new([create(z, p.arg(p.new([Q, ["RETURN", 1]]))), ["JOIN", z]]), draw(st.integers(1, 5))])
        elif k == 9:
            out.append(["NAP", draw(st.sampled_from([0, 50, 300]))])
    return out


@st.composite
def cases(draw):
    p = Prog()
    meta = {"n": 0, "f": 0, "late": []}
    cfg = {}
    if draw(st.integers(0, 2)) == 0:
        # creations before main
        cfg["MAIN_EARLY"] = 1
        p.rout[1] += [Q] + draw(ops_st(p, meta, 1)) + [Q]
    p.rout[0] += draw(ops_st(p, meta, 0)) + [Q] + meta["late"] + [Q, ["RETURN", 3]]
    gates = []
    for _ in range(draw(st.integers(0, 3))):
        # in callbacks: queries, creations
        sub = [Q]
        pt = draw(st.sampled_from(INSIDE * 2 + OUTSIDE))
        if draw(st.integers(0, 3)) and pt != "fini_thread":     # (that one may interrupt anything)
            sub += (draw(create_ops(p, meta, 2)) if meta["n"] < 12 else []) + [Q]
        if draw(st.integers(0, 4)) == 0:
            sub = [["NEWTHREADS", 0]] + sub + [["NEWTHREADS", 1], Q]
        gates.append(gate(pt, nth=draw(st.integers(1, 4)), phase=draw(st.integers(0, 1)), what=GW.RUN | p.new(sub) << 8))
    gates += draw(noise_gates(["thread_pre_create", "thread_post_create", "init_thread", "real_pthread_create"], 2))
    if draw(st.integers(0, 5)) == 0:
        cfg[draw(st.sampled_from(["IGNORE_ALL", "CALLBACK_DISABLE"]))] = 1
    return p.case(draw(mode_st), gates=gates, cfg=cfg)


class Check(BaseCheck):
    id = "C23"
    modes = ["dyn", "static"]
    quick = (45, 6000)
    rule = ("A case is a generated program of creations (nested, concurrent, before main, ignored by hint or by switch, failing, with "
            "any attributes, in forked children) with queries between, in every callback and in creations made inside callbacks. "
            "Non-trivial: a query was made inside of a creation and one outside. Distinct by program text.")
    assumptions = ["processes forked by an ignored thread are not judged",
                   "queries in the thread-fini of a thread which the process exit interrupts inside of a creation are not judged",
                   "queries in signal handlers that interrupt a creation are not judged",
                   "threads the library does not know (ignored ones) never have information"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 0x300, "status %#x" % r.status)
        ops = opmap(case)
        tags = set()
        n_in = n_out = 0
        known_kt = {r.main_pid} | {e.kt for e in r.log if e.type == T.CB_ENTER and e.code == CB.init_thread}
        forker = {e.a[1]: e for e in r.log if e.type == T.RES and e.code == OP.FORK and e.a[1] > 0}
        skip = set()
        for pid in sorted(by_pid(r), key=lambda q: min(e.i for e in r.log if e.pid == q)):
            if pid in forker and (forker[pid].pid in skip or forker[pid].kt not in known_kt | set(forker)):
                skip.add(pid)       # the child of an ignored thread, and its children
        for pid, evs in by_pid(r).items():
            pr = Proc(evs)
            if pid in skip:
                continue
            for kt, tev in pr.kt.items():
                known = kt == pid or any(e.type == T.CB_ENTER and e.code == CB.init_thread for e in tev)
                stack = []
                for e in tev:
                    if e.type == T.RES and e.code == OP.CREATE and stack:
                        stack.pop()
                        got = (e.a[6], None, None)
                        where = "after a creation"
                    elif e.type == T.OP and e.code == OP.CREATE:
                        stack.append(e)
                        continue
                    elif e.type == T.CB_ENTER:
                        got = (e.a[4], e.a[5], e.a[6])
                        where = "in callback %s" % cbname(e)
                        if e.code == CB.fini_thread and stack:
                            break           # the exit sweep interrupts a creation
                    elif e.type == T.RES and e.code == OP.NEWINFO:
                        if e.a[2] == 0x5678 and e.a[3] == 0x1234 and e.a[1] == 1:
                            got = (1, None, None)
                        else:
                            got = (e.a[1], e.a[3], e.a[2])
                        where = "in the program"
                        if ops[e.a[0]][1]:
                            ctx.expect(e.a[1] == 1, "a query without a place to put it succeeded")
                            continue
                    elif e.type == T.RES and e.code == OP.QUERY:
                        got = (e.a[6], None, None)
                        where = "in the program"
                    else:
                        continue
                    if not known or not stack:
                        n_out += 1
                        if not ctx.expect(got[0] == 1, "%s: the query reports information outside of a creation" % where):
                            return
                        continue
                    top = stack[-1]
                    n_in += 1
                    if len(stack) > 1:
                        tags.add("%s/nested" % case["mode"])
                    if not ctx.expect(got[0] == 0, "%s, %d creations deep: the query reports none" % (where, len(stack))):
                        return
                    if got[1] is not None:
                        ctx.expect(got[1] == top.a[3], "%s: start routine %#x, expected %#x" % (where, got[1], top.a[3]))
                        ctx.expect(top.a[4] < got[2] <= top.a[5], "%s: return address %#x, the caller is %#x-%#x" % (
                            where, got[2], top.a[4], top.a[5]))
                        tags.add("%s/%s" % (case["mode"], where))
        if n_in and n_out:
            ctx.nontrivial = sorted(tags)


CHECK = Check()
