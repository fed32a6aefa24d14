"""Slow and unreachable threads at process exit, on a virtual clock."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c03 import exit_ops

POLL = 0.1
READY, ATFINI = 1, 2
LIVES = [LV.nap, LV.pause, LV.sigwait, LV.masked, LV.cond, LV.sleep, LV.nocancel, LV.poll, LV.sem, LV.smask]
EXITSIG = bit(42)


@st.composite
def body_st(draw, p, kind, late, hs):
    """The thread's routine; late: the flag at which it can be reached again (None: never before process-fini)."""
    live = ["LIVE", draw(st.sampled_from(LIVES)), 3]
    if kind == "ordinary":
        return [["SETF", READY], live]
    wait = [["WAITF", ATFINI if late is None else late, 1]]
    after = [["UNBLOCKSD"], live] if kind == "block" else [live]
    if late is None and draw(st.booleans()):
        after = after[:-1] + [draw(st.sampled_from([["RETURN", 1], ["PEXIT", 1]]))]
    if kind == "block":
        return [["BLOCKSD"], ["SETF", READY]] + wait + after
    if kind == "masked":
        fn = draw(st.integers(2, 3))
        return [["MASK", fn, 0, EXITSIG, 1], ["SETF", READY]] + wait + [["MASK", fn, 1, EXITSIG, 1]] + after
    h = hs.pop()
    r = p.new([["SETF", READY]] + wait)
    return [["SIGACTION", h, 2, 0, 0, 1, r + 1], ["RAISE", draw(st.sampled_from([0, 4])), h]] + after


@st.composite
def cases(draw):
    p = Prog()
    p.nflag = 10
    main = p.rout[0]
    hs = [10, 12, 15, 40, 41]
    side = draw(st.integers(0, 3)) == 0
    gates = [gate("fini_process", nth=1, phase=0, set=ATFINI, sleep=draw(st.sampled_from([1000, 10000])))]
    unreach, late_args, ordinary, ignored = [], [], [], []
    n = draw(st.integers(1, 5))
    clock = 0
    ready = 0
    never = draw(st.integers(0, 1))     # are there threads that never answer?
    for k in range(n):
        s = p.slot()
        what = draw(st.sampled_from(["ordinary", "ordinary", "never", "late", "ignored"]))
        kind = draw(st.sampled_from(["block", "masked", "masked", "handler"]))
        if kind == "handler" and not hs:
            kind = "block"
        late = None
        hint = 0
        if what == "never" and not never:
            what = "late"
        if what == "late":
            clock += draw(st.sampled_from([2, 20, 50, 85]))
            late = p.flag()
            gates.append(gate("usleep", nth=clock, set=late))
        if what in ("ordinary", "ignored"):
            kind = "ordinary" if what == "ordinary" else draw(st.sampled_from(["ordinary", "masked"]))
        if what == "ignored":
            hint = HINT.IGNORE
        arg = p.arg(p.new(draw(body_st(p, kind, late, hs))))
        main.append(create(s, arg, fn=draw(st.integers(0, 3)), attr=draw(st.sampled_from([AT.null, AT.detached])), hint=hint))
        {"ordinary": ordinary, "never": unreach, "late": late_args, "ignored": ignored}[what].append(arg)
    ready = n
    meta = {"exits": [], "unreach": unreach, "late": late_args, "ordinary": ordinary, "ignored": ignored, "mainkind": None}
    mainbody = None
    if side:
        what = draw(st.sampled_from(["ordinary", "never", "late"]))
        if what == "never" and not never:
            what = "ordinary"
        kind = draw(st.sampled_from(["block", "masked"]))
        late = None
        if what == "late":
            clock += draw(st.sampled_from([2, 20, 50, 85]))
            late = p.flag()
            gates.append(gate("usleep", nth=clock, set=late))
        mainbody = draw(body_st(p, "ordinary" if what == "ordinary" else kind, late, hs))
        if mainbody[-1][0] != "LIVE":
            mainbody[-1] = ["LIVE", LV.pause, 3]
        meta["mainkind"] = what
        ready += 1
    kinds = ["exit", "_exit", "_Exit", "abort", "signal", "exec"]
    k, ops, exp = exit_ops(draw, p, kinds + ([] if side else ["return"]), "main", meta)
    if k == "signal" and exp in (10, 12, 15, 40, 41):
        k, ops, exp = "exit", [["EXIT", EX.exit, 4]], 0x400
    if k == "signal":       # not through the stand-in that loses signals
        ops = [["EXIT", K["EX_raise"], exp]]
    meta["exits"] = [k, exp, "side" if side else "main"]
    if side:
        main.append(create(p.slot(), p.arg(p.new([["WAITF", READY, ready]] + ops))))
        main += mainbody
    else:
        main += [["WAITF", READY, ready]] + ops
    # slow thread-fini callbacks
    slow = 0
    for j in range(draw(st.integers(0, 2))):
        slow = draw(st.sampled_from([2, 50, 120, 200]))
        f = p.flag()
        gates.append(gate("usleep", nth=slow, set=f))
        gates.append(gate("fini_thread", nth=draw(st.integers(1, 3)), phase=draw(st.integers(0, 1)), wait=f))
    # signals that get lost
    for _ in range(draw(st.integers(0, 3))):
        gates.append(gate("real_pthread_kill", nth=draw(st.integers(1, 12)), phase=0, what=draw(st.sampled_from([GW.DROP, GW.DROP, GW.FAIL]))))
    meta["slow"] = slow
    return p.case(draw(mode_st), gates=gates, cfg={"VCLOCK": 1}, meta=meta, timeout=40000)


class Check(BaseCheck):
    id = "C27"
    modes = ["dyn", "static"]
    quick = (70, 2500)
    rule = ("A case is a generated population at exit of ordinary threads, threads that never answer (exit signal blocked in the kernel, "
            "sweep blocked, inside a signal handler), threads that answer after seconds, ignored ones, with slow thread-fini callbacks and "
            "lost signals, main among them or exiting, on a clock which each poll advances. Non-trivial: a thread that is slow, late or never "
            "answers. Distinct by program text.")
    assumptions = ["a thread answers when it can receive the exit signal within 8.5 s after the last other one did"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        k, exp, who = meta["exits"]
        ctx.expect(r.status == exp, "status %#x, expected %#x" % (r.status, exp))
        evs = split_exec([e for e in r.log if e.pid == r.main_pid])[0]
        pr = Proc(evs)
        b, f = pr.cb("begin_process_exit"), pr.cb("fini_process")
        if not ctx.expect(len(b) == 1 and len(f) == 1, "exit callbacks: %d, %d" % (len(b), len(f))):
            return
        fi = f[0].i
        last = b[0].i
        never = bool(meta["unreach"]) or meta["mainkind"] == "never"
        for kt, tev in pr.kt.items():
            fin = thread_calls(tev, "fini_thread")
            if kt == f[0].kt:
                want = 0 if kt == r.main_pid else 1
            elif kt == r.main_pid:
                want = 0 if meta["mainkind"] == "never" else 1
            else:
                s = [e for e in tev if e.type == T.START]
                if not s:
                    continue
                want = 0 if s[0].a[0] in meta["unreach"] + meta["ignored"] else 1
            what = "main" if kt == r.main_pid else "a thread"
            if not ctx.expect(len(fin) == want, "%d calls of fini_thread in %s%s, expected %d" % (
                    len(fin), what, " that exits" if kt == f[0].kt else "", want)):
                return
            for x in fin:
                ctx.expect(x[0].i < fi, "fini_thread begins after fini_process")
                ctx.expect(x[1] is not None and x[1].i < fi, "fini_process begins before a fini_thread has finished")
                if kt != f[0].kt:
                    last = max(last, x[0].i)
        virt = sum(e.a[0] for e in evs if e.type == T.SLEEP and last < e.i < fi) / 1e6
        if never:
            fin = [x for kt in pr.kt for x in thread_calls(pr.kt[kt], "fini_thread") if kt != f[0].kt]
            end = max([x[1].i for x in fin if x[1] is not None] + [b[0].i])
            after = sum(e.a[0] for e in evs if e.type == T.SLEEP and end < e.i < fi) / 1e6
            ctx.expect(virt + r.wall_ms / 1e3 >= 9, "gave up after %.1f s" % virt)
            # the callbacks of slow threads may take as long as they like
            ctx.expect(after <= 15, "gave up only after %.1f s" % after)
        tags = []
        if never:
            tags.append("%s/never" % case["mode"])
        if meta["late"] or meta["mainkind"] == "late":
            tags.append("%s/late" % case["mode"])
        if meta["slow"]:
            tags.append("%s/slow" % case["mode"])
        if meta["mainkind"]:
            tags = [t + " main" for t in tags]
        ctx.nontrivial = tags


CHECK = Check()
