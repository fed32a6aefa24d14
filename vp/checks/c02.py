"""Thread lifecycle: callbacks around every monitored thread."""
from hypothesis import strategies as st

from .. import subset
from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from . import c03

CBNAMES = ["thread_pre_create", "thread_post_create", "reset_stacksize", "init_thread", "fini_thread"]


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    cfg = {}
    meta = {"threads": [], "max": 8}
    fz = p.flag()
    gates = [gate("fini_thread", phase=1, set=fz)]
    ends = ["return", "return", "pexit", "cancel", "testcancel"]
    attrs = [AT.null, AT.null, AT.default, AT.detached, AT.stack, AT.stacksize, AT.guard, AT.badsched]
    early = mode == "dyn" and draw(st.integers(0, 7)) == 0
    if early:
        cfg["MAIN_EARLY"] = 1
    tgt = p.rout[1] if early else main
    later = []
    for _ in range(draw(st.integers(1, 4))):
        if len(meta["threads"]) >= meta["max"]:
            break
        c, after, sp = thread_body(draw, p, meta, 0, ends, attrs, True)
        tgt.append(c)
        if draw(st.booleans()):
            later += after
        else:
            tgt += after
    tgt += later
    # cancellation requested while the thread is inside one of its callbacks
    if draw(st.integers(0, 2)) == 0 and not early:
        f1, f2 = p.flag(), p.flag()
        s = p.slot()
        v = draw(st.integers(1, 1000))
        body = draw(st.sampled_from([[["RETURN", v]], [["PEXIT", v]], [["TESTCANCEL"], ["RETURN", v]]]))
        r = p.new(body)
        arg = p.arg(r)
        point = draw(st.sampled_from(["init_thread", "fini_thread"]))
        n_before = count_ok(meta)
        meta["threads"].append({"arg": arg, "end": "incb", "val": v, "attr": 0, "slot": s, "depth": 0, "cancel": 1,
                                "cleanup": 0, "key": 0, "fail": 0, "join": 1})
        gates.append(gate(point, nth=n_before + 1, phase=draw(st.integers(0, 1)), set=f1, wait=f2,
                          what=GW.CANCELPT))
        main += [["WAITLIVE", fz, n_before], create(s, arg), ["WAITLIVE", f1, 1], ["CANCEL", s], ["SETF", f2],
                 ["JOIN", s]]
        meta["incb"] = 1
    gates += draw(noise_gates(CBNAMES))
    main.append(["WAITLIVE", fz, count_ok(meta)])
    main.append(draw(st.sampled_from([["RETURN", 7], ["EXIT", EX.exit, 7], ["EXIT", EX._exit, 7]])))
    return p.case(mode, cfg=cfg, gates=gates, meta=meta)


def count_ok(meta):
    # creation order: a nested spec follows its parent with larger depth
    n = 0
    skip = None
    for t in meta["threads"]:
        if skip is not None and t["depth"] > skip:
            continue
        skip = None
        if t["fail"]:
            skip = t["depth"]
        else:
            n += 1
    return n


class Check(BaseCheck):
    id = "C02"
    modes = ["dyn", "static"]
    quick = (30, 10000)
    rule = ("A case is a generated program creating up to nine threads (nested, joined, detached, before main, with "
            "failing creates) that end by return, pthread_exit or cancellation, including cancellation requested "
            "inside a callback, under generated delays, or (a third) one of C03's, where the process exits meanwhile; non-trivial: at least one monitored thread ran to its end. "
            "Distinct by program text." + subset.RULE)
    assumptions = ["threads that start during the exit may get no callbacks",
                   "threads are created by pthread_create from monitored threads"]

    def prepare(self, build):
        subset.prepare(build)

    def strategy(self, tier):
        return subset.mixed(st.one_of(cases(), cases(), c03.cases()))

    def judge(self, case, ctx):
        if case.get("kind") == "subset":
            return subset.judge(case, ctx, self.build, ["thread"])
        meta = case["meta"]
        if "exits" in meta:
            c03.CHECK.judge(case, ctx)
            return
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 7 << 8, "status %#x, expected exit 7" % r.status)
        pr = Proc(r.log)
        main_kt = r.main_pid
        specs = {t["arg"]: t for t in meta["threads"]}
        created = 0
        sup = pr.cb("init_thread_support")
        sup_end = pr.cb("init_thread_support", T.CB_LEAVE)
        creates = pr.creates()
        if creates:
            ctx.expect(len(sup) == 1, "init_thread_support called %d times" % len(sup))
        kinds = set()
        joined = {}
        for e in r.log:
            if e.type == T.RES and e.code == OP.JOIN and e.a[1] != -3:
                joined[e.a[4]] = e
        starts = pr.starts()
        for o, res, mid in creates:
            sp = specs.get(o.a[1])
            if not ctx.expect(res is not None, "pthread_create did not return"):
                continue
            ok = res.a[1] == 0
            if sp["fail"]:
                ctx.expect(res.a[1] == sp["fail"], "pthread_create returned %d, expected %d" % (res.a[1], sp["fail"]))
            else:
                ctx.expect(ok, "pthread_create returned %d" % res.a[1])
            seq = [(x, w) for x, w in cb_seq(mid) if x in ("thread_pre_create", "thread_post_create")]
            ctx.expect(seq == [("thread_pre_create", "enter"), ("thread_pre_create", "leave"),
                               ("thread_post_create", "enter"), ("thread_post_create", "leave")],
                       "callbacks in the creator: %s" % seq)
            for e in mid:
                if e.type == T.CB_ENTER and e.code == CB.thread_pre_create:
                    ctx.expect(sup_end and sup_end[0].i < e.i, "pre_create before init_thread_support had finished")
            s = starts.get(o.a[1], [])
            if not ok:
                ctx.expect(not s, "a thread that was not created has started")
                kinds.add("fail")
                continue
            created += 1
            if not ctx.expect(len(s) == 1, "created thread started %d times" % len(s)):
                continue
            evs = pr.kt[s[0].kt]
            fin = thread_calls(evs, "fini_thread")
            if not ctx.expect(len(fin) == 1, "thread ended by %s got %d fini_thread callbacks" % (
                    sp["end"], len(fin))):
                continue
            for e in evs:
                if e.i > fin[0][0].i and e.type in (T.ENDR, T.CLEANUP, T.OP, T.RES, T.START):
                    ctx.fail("application code of a thread ran after its fini_thread began")
            if sp["cleanup"]:
                ctx.expect(any(e.type == T.CLEANUP and e.a[0] == sp["cleanup"] for e in evs),
                           "the application's cleanup handler did not run")
            if sp["key"] and sp["join"]:
                ctx.expect(any(e.type == T.KEYDTOR and e.a[0] == sp["key"] for e in evs),
                           "the application's thread-specific destructor did not run")
            for e in evs:
                if e.type == T.KEYDTOR:
                    ctx.expect(e.mt in (-1, s[0].mt), "after its fini_thread thread %d has number %d" % (s[0].mt, e.mt))
            j = joined.get(sp["slot"])
            if sp["join"]:
                if ctx.expect(j is not None and j.a[1] == 0, "thread was not joined"):
                    ctx.expect(fin[0][1] is not None and fin[0][1].i < j.i,
                               "join returned before fini_thread had finished")
                    v_ok = (not j.a[3]) and j.a[2] == sp["val"]
                    c_ok = bool(j.a[3])
                    if sp["end"] in ("return", "pexit"):
                        ctx.expect(v_ok, "join value %#x, expected %#x" % (j.a[2], sp["val"]))
                    elif sp["end"] in ("cancel", "testcancel"):
                        ctx.expect(c_ok, "canceled thread's join value is %#x" % j.a[2])
                    else:
                        ctx.expect(v_ok or c_ok, "join value %#x" % j.a[2])
            kinds.add("%s/%s" % (case["mode"], sp["end"]))
        n = check_threads(pr, ctx, main_kt)
        ctx.expect(n == created, "%d threads started, %d created" % (n, created))
        ni, nf = len(pr.cb("init_thread")), len(pr.cb("fini_thread"))
        ctx.expect(ni == created and nf == created, "%d init_thread and %d fini_thread callbacks for %d threads" % (
            ni, nf, created))
        for e in pr.kt.get(main_kt, []):
            if e.type == T.CB_ENTER and e.code in (CB.init_thread, CB.fini_thread):
                ctx.fail("%s in the main thread" % CB.name(e.code))
        if kinds - {"fail"}:
            ctx.nontrivial = sorted(kinds)


CHECK = Check()
