"""Thread identity: numbers, start routines, user data, is_threaded."""
from hypothesis import strategies as st

from .. import subset
from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *


@st.composite
def cases(draw, tier):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    cfg = {}
    meta = {"threads": [], "max": 6}
    main.append(["QUERY"])
    qrout = p.new([["QUERY"], ["RETURN", 1]])
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 9))
        if k <= 3:
            c, after, sp = thread_body(draw, p, meta, 0, ["return", "return", "pexit", "cancel"],
                                       [AT.null, AT.default, AT.detached, AT.stacksize], True)
            main.append(c)
            main += after
        elif k <= 5:
            n = draw(st.integers(1, 12))
            if draw(st.integers(0, 60)) == 0:
                n = draw(st.sampled_from([599, 600, 601, 700]))
            main.append(["CREATEQ", p.slot(), n, p.arg(qrout)])
        elif k <= 7:
            n = draw(st.integers(1, 12))
            if draw(st.integers(0, 60)) == 0:
                n = draw(st.sampled_from([599, 600, 601, 650]))
            f = p.flag()
            r = p.new([["QUERY"], ["WAITF", f, 1], ["QUERY"], ["RETURN", 1]])
            base = p.nslot
            p.nslot += n
            main += [["CREATEN", base, n, p.arg(r), 0]]
            if draw(st.booleans()):
                main.append(["CREATEQ", p.slot(), draw(st.integers(1, 4)), p.arg(qrout)])
            main += [["SETF", f], ["JOINN", base, n]]
        else:
            # a thread lingers in a thread-specific destructor while others start
            f, g, h = p.flag(), p.flag(), p.flag()
            dt = p.new([["SETF", g], ["WAITLIVE", f, 1], ["QUERY"]])
            a, b = p.slot(), p.slot()
            ra = p.new([["QUERY"], ["KEYSET", ((dt + 1) << 32) | (2000 + a)],
                        draw(st.sampled_from([["RETURN", 4], ["PEXIT", 4]]))])
            rb = p.new([["QUERY"], ["WAITF", h, 1], ["QUERY"], ["RETURN", 4]])
            main += [create(a, p.arg(ra), fn=draw(st.integers(0, 3))), ["WAITLIVE", g, 1],
                     create(b, p.arg(rb), fn=draw(st.integers(0, 3))), ["NAP", draw(small_us())], ["SETF", f],
                     ["JOIN", a], ["SETF", h], ["JOIN", b]]
            meta["linger"] = 1
        main.append(["QUERY"])
    main.append(["RETURN", 7])
    return p.case(mode, cfg=cfg, gates=draw(noise_gates(["init_thread", "fini_thread", "thread_post_create"], 2)),
                  meta=meta)


@st.composite
def first_cases(draw):
    """The first creations are ignored by the client or fail."""
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    gates = []
    n = 0
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 5))
        if k <= 1:
            main.append(["QUERY"])
            continue
        n += 1
        s = p.slot()
        r = p.new([["QUERY"], ["RETURN", 1]])
        if k == 2:
            main += [["NEWTHREADS", 0], ["QUERY"], create(s, p.arg(r)), ["NEWTHREADS", 1], ["JOIN", s]]
        elif k == 3:
            main += [create(s, p.arg(r), hint=HINT.IGNORE), ["JOIN", s]]
        elif k == 4:
            gates.append(gate("real_pthread_create", nth=n, what=GW.FAIL))
            main.append(create(s, p.arg(r)))
        else:
            main += [create(s, p.arg(r)), ["JOIN", s]]
    main += [["QUERY"], ["RETURN", 7]]
    return p.case(mode, gates=gates, meta={"first": n})


@st.composite
def many_cases(draw, tier):
    """Very many threads, one batch after another; only the sum is logged."""
    p = Prog()
    n = draw(st.one_of(st.integers(900, 3000), st.sampled_from([1025, 4097] + ([10001, 33000] if tier == "thorough" else []))))
    p.rout[0] += [["MANYT", n, draw(st.integers(1, 40))], ["RETURN", 7]]
    return p.case(draw(mode_st), cfg={"QUIET": 1}, meta={"many": n}, timeout=60000)


def lives(evs):
    """Splits the events of a kernel thread id that the system gave out again."""
    out, fini = [[]], False
    for e in evs:
        if e.type == T.CB_LEAVE and e.code == CB.fini_thread:
            fini = True
        elif fini and e.type == T.CB_ENTER and e.code == CB.init_thread:
            out.append([])
            fini = False
        out[-1].append(e)
    return out


class Check(BaseCheck):
    id = "C05"
    modes = ["dyn", "static"]
    quick = (30, 8000)
    rule = ("A case is a generated program that creates threads one after another, many at once (up to 700, past the "
            "library's preallocated table), nested, and while a finished thread still runs application destructors, "
            "or programs whose first creations the client ignores or the system refuses; every thread asks for its identity at several points. Non-trivial: at least two threads ran, or a creation was ignored or refused. "
            "Distinct by program text." + subset.RULE)
    assumptions = ["at most a few thousand threads per process"]

    def prepare(self, build):
        subset.prepare(build)

    def strategy(self, tier):
        return subset.mixed(st.integers(0, 999).flatmap(
            lambda k: many_cases(tier) if k == 377 else first_cases() if k % 8 == 0 else cases(tier)))

    def judge(self, case, ctx):
        if case.get("kind") == "subset":
            return subset.judge(case, ctx, self.build, ["id"])
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 7 << 8, "status %#x, expected exit 7" % r.status)
        if "many" in case["meta"]:
            n = case["meta"]["many"]
            e = next((e for e in r.log if e.type == T.RES and e.code == OP.MANYT), None)
            if ctx.expect(e is not None, "the threads were not all created"):
                ctx.expect(e.a[1] == n, "%d of %d threads ran and were joined" % (e.a[1], n))
                ctx.expect(e.a[2] == 0, "%d threads have the number of an earlier one" % e.a[2])
                ctx.expect(e.a[3] == 0, "%d threads have no proper number" % e.a[3])
                ctx.nontrivial = ["%s/thousands of threads" % case["mode"]]
            return
        pr = Proc(r.log)
        if "first" in case["meta"]:
            c = [e.i for e in r.log if e.type == T.OP and e.code == OP.CREATE]
            c = min(c) if c else 1 << 60
            for e in r.log:
                if e.type == T.RES and e.code == OP.QUERY:
                    ctx.expect(e.a[3] == int(e.i > c), "is_threaded is %d %s the first creation" % (
                        e.a[3], "after" if e.i > c else "before"))
            if case["meta"]["first"]:
                ctx.nontrivial = ["%s/first creations ignored or failing" % case["mode"]]
            return
        seen = {}
        first_create = next((e.i for e in r.log if e.type == T.CB_ENTER and e.code == CB.init_thread_support), 1 << 40)
        for kt, evs in [(k, x) for k, v in pr.kt.items() for x in lives(v)]:
            if kt == r.main_pid:
                ip = pr.cb("init_process", T.CB_LEAVE)
                for e in evs:
                    if e.mt != -9 and e.mt != 0:
                        ctx.fail("the main thread has number %d" % e.mt)
                        break
                for e in evs:
                    if e.type == T.RES and e.code == OP.QUERY:
                        ctx.expect(e.a[1] == 0, "the main thread has number %d" % e.a[1])
                        ctx.expect(ip and e.a[2] == ip[0].a[0], "user data of the main thread")
                        ctx.expect(e.a[5] == 1, "wrong address of main")
                        ctx.expect(e.a[3] == (1 if e.i > first_create else 0),
                                   "is_threaded is %d %s the first thread" % (
                                       e.a[3], "after" if e.i > first_create else "before"))
                continue
            ini = thread_calls(evs, "init_thread")
            fin = thread_calls(evs, "fini_thread")
            if not any(e.type == T.START for e in evs):
                continue    # a detached thread that the exit overtook
            if not ctx.expect(len(ini) == 1 and ini[0][1] is not None, "%d init_thread in a thread" % len(ini)):
                continue
            tid = ini[0][0].a[0]
            ctx.expect(tid > 0, "thread number %d" % tid)
            if tid in seen:
                ctx.fail("threads share the number %d" % tid)
            seen[tid] = kt
            data = ini[0][1].a[0]
            fin_end = fin[0][1].i if fin and fin[0][1] else 1 << 40
            fn = next((e.code for e in evs if e.type == T.START), None)
            for e in evs:
                if e.mt == -9:
                    continue
                if e.i <= fin_end:
                    if not ctx.expect(e.mt == tid, "thread %d sees number %d" % (tid, e.mt)):
                        break
                else:
                    if not ctx.expect(e.mt in (-1, tid), "thread %d, finished, sees number %d" % (tid, e.mt)):
                        break
                if e.type == T.START:
                    ctx.expect(e.a[2] == fn, "start routine is reported as %d, not %d" % (e.a[2], fn))
                    ctx.expect(e.a[1] == data, "user data at thread start")
                if e.type == T.RES and e.code == OP.QUERY:
                    if e.i <= fin_end:
                        ctx.expect(e.a[2] == data, "user data of thread %d" % tid)
                        ctx.expect(e.a[4] == fn, "start routine of thread %d is reported as %d, not %d" % (
                            tid, e.a[4], fn))
                    else:
                        ctx.expect(e.a[2] in (data, 0), "user data of finished thread %d" % tid)
                        ctx.expect(e.a[4] in (fn, -2), "start routine of finished thread %d" % tid)
                    ctx.expect(e.a[3] == 1, "is_threaded is 0 in a thread")
                    ctx.expect(e.a[5] == 1, "wrong address of main")
        if len(seen) >= 2:
            ctx.nontrivial = ["%s/%s%s" % (case["mode"], ">=599" if len(seen) >= 599 else ">=10" if len(seen) > 9
                                           else "<10", "/linger" if case["meta"].get("linger") else "")]


CHECK = Check()
