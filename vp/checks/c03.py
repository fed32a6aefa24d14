"""Process exit with live threads."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

LIVE_STYLES = [LV.nap, LV.pause, LV.sigwait, LV.masked, LV.cond, LV.sleep, LV.read, LV.nocancel, LV.poll,
               LV.sigwaitinfo, LV.sigtimedwait, LV.sem, LV.mutex, K["LV_async"], LV.spin, LV.smask, LV.signone]
POINTS = ["begin_process_exit", "fini_thread", "init_thread", "fini_process", "usleep", "real_pthread_kill",
          "setcancelstate", "thread_post_create", "real_pthread_create"]
FULL = (1 << 64) - 1


def exit_ops(draw, p, kinds, who, meta):
    k = draw(st.sampled_from(kinds))
    v = draw(st.integers(0, 255))
    if k == "return":
        ops, exp = [["RETURN", v]], v << 8
    elif k in ("exit", "_exit", "_Exit"):
        ops, exp = [["EXIT", getattr(EX, k), v]], v << 8
    elif k == "pexit":
        ops, exp = [["EXIT", EX.pexit, v]], 0
    elif k == "abort":
        ops, exp = [["EXIT", EX.abort, 0]], 6
    elif k == "signal":
        sig = draw(st.sampled_from([1, 2, 10, 12, 15, 40, 50, 11, 7, 4]))
        # kill() may be taken by any thread
        ops, exp = [["EXIT", draw(st.sampled_from([K["EX_raise"], EX.tkill])), sig]], sig
    elif k == "fault":
        kk = draw(st.sampled_from(["segv", "fpe", "ill", "bus"]))
        ops, exp = [["EXIT", getattr(EX, kk), 0]], {"segv": 11, "fpe": 8, "ill": 4, "bus": 7}[kk]
    else:
        ops, exp = [["EXEC", draw(st.integers(0, 5)), "@BIN@/vdump", ["vdump", "x"], 2, [], 0, 1]], 0
    return k, ops, exp


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    meta = {"exits": [], "live": 0, "ignored": []}
    cfg = {}
    fend = p.flag()
    gates = [gate("fini_process", phase=1, set=fend)]
    plan = draw(st.sampled_from(["main", "main", "side", "side", "both", "pexit"]))
    kinds_main = ["return", "exit", "_exit", "_Exit", "abort", "signal", "fault", "exec"]
    kinds_side = ["exit", "_exit", "_Exit", "abort", "signal", "fault", "exec"]
    waits = []
    nlive = draw(st.integers(0 if plan != "main" else 1, 5))
    for _ in range(nlive):
        s = p.slot()
        f = p.flag()
        if plan == "pexit":
            body = [["SETF", f], ["WAITF", fend, 1], ["RETURN", 1]]
        else:
            body = []
            if draw(st.integers(0, 4)) == 0:
                # inside one of its signal handlers when the exit begins
                sig = draw(st.sampled_from([36, 38, 39, 52]))
                hk = draw(st.sampled_from([2, 3, 4, 5]))
                hf = p.flag()
                hb = [["SETF", hf]]
                if draw(st.integers(0, 2)) == 0:
                    hb.append(["MASK", draw(st.integers(0, 1)), draw(st.integers(0, 2)), draw(st.sampled_from([0, FULL, bit(36) | bit(38)])), 1])
                hb.append(["NAP", draw(st.sampled_from([500, 3000, 8000, 20000]))])
                body += [["SIGACTION", sig, hk, draw(st.sampled_from([0, SA_RESTART, SA_NODEFER])) | (SA_SIGINFO if hk >= 4 else 0),
                          draw(st.sampled_from([0, FULL, bit(15)])), 1, p.new(hb) + 1],
                         ["RAISE", draw(st.sampled_from([0, 1, 4])), sig, 0, 0]]
                if draw(st.integers(0, 3)) == 0:
                    # one of the client's handlers instead
                    cfg["CSIGNAP"] = draw(st.sampled_from([3000, 8000, 20000]))
                    cs = draw(st.sampled_from([54, 55, 56]))
                    body[-2:] = [["SIGACTION", cs, 1, 0, 0, 1],
                                 ["MSIGACTION", cs, draw(st.integers(0, 1)), draw(st.sampled_from([0, SA_NODEFER])), 0, draw(st.integers(0, 1))],
                                 ["SETF", hf], ["RAISE", draw(st.sampled_from([0, 1, 4])), cs, 0, 0]]
                    waits.append(["NAP", 1500])
                waits.append(["WAITLIVE", hf, 1])
                f = -1
            if draw(st.integers(0, 4)) == 0:
                body.append(["MASK", draw(st.integers(0, 1)), 2, draw(st.sampled_from([(1 << 64) - 1, bit(15)])), 1])
            body.append(["LIVE", draw(st.sampled_from(LIVE_STYLES)), f])
        main.append(create(s, p.arg(p.new(body)), fn=draw(st.integers(0, 3)),
                           attr=draw(st.sampled_from([AT.null, AT.detached, AT.stacksize])), stack=65536))
        if f >= 0 and draw(st.integers(0, 3)):
            waits.append(["WAITLIVE", f, 1])
        meta["live"] += 1
    # short-lived threads, some still starting or ending when the exit begins
    for _ in range(draw(st.integers(0, 3))):
        s = p.slot()
        body = [["NAP", draw(small_us())]] if draw(st.booleans()) else []
        body.append(draw(st.sampled_from([["RETURN", 1], ["PEXIT", 1]])))
        main.append(create(s, p.arg(p.new(body)), attr=draw(st.sampled_from([AT.null, AT.detached]))))
        if draw(st.integers(0, 2)) == 0:
            main.append(["NAP", draw(small_us())])
    if plan != "pexit" and draw(st.integers(0, 3)) == 0:
        # a thread that keeps creating threads
        q = p.new([["RETURN", 1]])
        r = p.new([["CREATEQ", p.slot(), draw(st.integers(1, 30)), p.arg(q)], ["LIVE", LV.pause, 0]])
        main.append(create(p.slot(), p.arg(r)))
    if plan != "pexit" and draw(st.integers(0, 2)) == 0:
        # threads cancelled in whatever blocks them, about when the process exits
        go = p.flag()
        cut = []
        for _ in range(draw(st.integers(1, 6))):
            s, f = p.slot(), p.flag()
            main.append(create(s, p.arg(p.new([["LIVE", draw(st.sampled_from(CANCEL_STYLES)), f]]))))
            if draw(st.integers(0, 4)):
                waits.append(["WAITLIVE", f, 1])
            cut.append(["CANCEL", s])
        main.append(create(p.slot(), p.arg(p.new([["WAITF", go, 1], ["NAP", draw(small_us())]] + cut +
                                                 [["RETURN", 1]]))))
        waits.append(["SETF", go])
        meta["cancel"] = len(cut)
    main += waits
    if plan == "main":
        k, ops, exp = exit_ops(draw, p, kinds_main, "main", meta)
        main += ops
        meta["exits"] = [[k, exp, "main"]]
    elif plan == "pexit":
        main += [["EXIT", EX.pexit, 3]]
        meta["exits"] = [["pexit", 0, "main"]]
    elif plan == "side":
        k, ops, exp = exit_ops(draw, p, kinds_side, "side", meta)
        pre = [["NAP", draw(small_us())]] if draw(st.booleans()) else []
        if draw(st.integers(0, 3)) == 0:
            ops = [["CLEANUP", p.new(ops), 5, 1]]
        s = p.slot()
        cut = draw(st.integers(0, 2)) == 0
        if cut:
            # the thread that ends the process has a cancellation request pending
            f1, f2 = p.flag(), p.flag()
            pre = [["CSTATE", 1], ["SETF", f1], ["WAITF", f2, 1]]
            if draw(st.integers(0, 3)):
                pre.append(["CSTATE", 0])
            for c in draw(st.lists(st.sampled_from(["begin_process_exit", "fini_process", "fini_library", "fini_thread"]),
                                   min_size=1, max_size=4, unique=True)):
                gates.append(gate(c, phase=draw(st.integers(0, 1)), what=GW.CANCELPT))
            meta["pending"] = 1
        main.append(create(s, p.arg(p.new(pre + ops))))
        if cut:
            main += [["WAITF", f1, 1], ["CANCEL", s], ["SETF", f2]]
        main.append(draw(st.sampled_from([["JOIN", s], ["LIVE", LV.pause, 0], ["LIVE", LV.sigwait, 0],
                                          ["LIVE", LV.spin, 0], ["LIVE", LV.cond, 0], ["LIVE", LV.smask, 0]])))
        meta["exits"] = [[k, exp, "side"]]
    else:
        go = p.flag()
        n = draw(st.integers(1, 3))
        for _ in range(n):
            k, ops, exp = exit_ops(draw, p, ["exit", "_exit", "_Exit"], "side", meta)
            ign = draw(st.integers(0, 2)) == 0
            arg = p.arg(p.new([["WAITF", go, 1], ["NAP", draw(small_us())]] + ops))
            main.append(create(p.slot(), arg, hint=HINT.IGNORE if ign else 0))
            if ign:
                meta["ignored"].append(arg)
            meta["exits"].append([k, exp, "side"])
        main.append(["SETF", go])
        if draw(st.booleans()):
            k, ops, exp = exit_ops(draw, p, ["return", "exit", "_exit", "_Exit"], "main", meta)
            main += [["NAP", draw(small_us())]] + ops
            meta["exits"].append([k, exp, "main"])
        else:
            main.append(["LIVE", LV.pause, 0])
    gates += draw(noise_gates(POINTS, 5))
    nth = sum(1 for r in p.rout for o in r if o[0] == "CREATE")
    if plan == "main" and draw(st.integers(0, 2)) == 0:
        # a thread is inside its init callback when the exit begins
        f = p.flag()
        gates.append(gate("begin_process_exit", phase=1, set=f))
        gates.append(gate("init_thread", nth=draw(st.integers(1, nth)), phase=draw(st.integers(0, 1)), wait=f,
                          sleep=draw(st.sampled_from([0, 500, 3000]))))
        meta["ininit"] = 1
        main[:] = [o for o in main if o[0] != "WAITLIVE"]
        main.insert(len(main) - 1, ["NAP", 1500])
    return p.case(mode, gates=gates, cfg=cfg, meta=meta, timeout=25000)


class Check(BaseCheck):
    id = "C03"
    modes = ["dyn", "static"]
    quick = (40, 8000)
    rule = ("A case is a generated program with up to ten threads, blocked in seventeen different ways, starting, "
            "inside signal handlers, ending or creating others, that one thread (main or not) or several at once end by a generated route, "
            "under generated delays at the library's calls; non-trivial: at least one other thread was running "
            "application code when the exit began. Distinct by program text.")
    assumptions = ["threads do not block the reserved signal by a raw system call and are not in sigsuspend "
                   "when the exit begins; handlers return",
                   "threads that start during the exit may get no callbacks"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ex = [e for e in meta["exits"]]
        ctx.expect(r.status in [e[1] for e in ex], "status %#x, expected one of %s" % (
            r.status, [hex(e[1]) for e in ex]))
        ims = split_exec([e for e in r.log if e.pid == r.main_pid])
        if not ctx.expect(all(e.pid == r.main_pid for e in r.log), "events of another process"):
            return
        pr = Proc(ims[0])
        b, f = pr.cb("begin_process_exit"), pr.cb("fini_process")
        ctx.expect(len(b) == 1, "begin_process_exit called %d times" % len(b))
        if not ctx.expect(len(f) == 1, "fini_process called %d times" % len(f)) or not b:
            return
        bi, fi = b[0].i, f[0].i
        ctx.expect(b[0].kt == f[0].kt, "begin_process_exit and fini_process in different threads")
        ctx.expect(pr.cb("fini_process", T.CB_LEAVE), "fini_process did not finish")
        if len(ex) == 1:
            k, x, who = ex[0]
            how = {"exec": EXIT_EXEC}.get(k, EXIT_SIGNAL if x & 0x7f else EXIT_NORMAL)
            ctx.expect(f[0].a[0] == how, "how is %d, expected %d" % (f[0].a[0], how))
            if who == "main":
                ctx.expect(f[0].kt == r.main_pid, "fini_process in another thread")
            else:
                ctx.expect(f[0].kt != r.main_pid, "fini_process in another thread")
        for e in r.log:
            if not ctx.expect(e.type != T.EINTR, "a thread blocked in %s saw EINTR" % (
                    "read" if e.code == LV.read else "sem_wait")):
                break
        depth, inh = {}, set()
        for e in r.log:
            if e.type in (T.HANDLER, T.CLIENTSIG):
                depth[e.kt] = depth.get(e.kt, 0) + 1
            elif e.type in (T.HLEAVE, T.CSIGLEAVE):
                depth[e.kt] = depth.get(e.kt, 0) - 1
            elif e.type == T.CB_ENTER and e.code == CB.begin_process_exit:
                inh = {k for k in depth if depth[k] > 0}
            elif e.type == T.CB_ENTER and e.code == CB.fini_thread:
                ctx.expect(depth.get(e.kt, 0) == 0, "fini_thread inside the thread's signal handler")
        running = 0
        for kt, evs in pr.kt.items():
            ini = thread_calls(evs, "init_thread")
            fin = thread_calls(evs, "fini_thread")
            ctx.expect(len(fin) <= 1, "fini_thread called %d times in one thread" % len(fin))
            ctx.expect(len(ini) <= 1, "init_thread called %d times in one thread" % len(ini))
            for x in fin:
                ctx.expect(x[0].i < fi, "fini_thread begins after fini_process")
                if kt != r.main_pid:
                    ctx.expect(ini and ini[0][1] is not None and ini[0][1].i < x[0].i,
                               "fini_thread begins before init_thread has finished")
            if kt == r.main_pid:
                want = 0 if f[0].kt == r.main_pid else 1
                ctx.expect(len(ini) == 0, "init_thread in the main thread")
                ctx.expect(len(fin) == want, "%d fini_thread in the main thread, expected %d (exit by %s)" % (
                    len(fin), want, "main" if want == 0 else "a side thread"))
            else:
                s = [e for e in evs if e.type == T.START]
                if not s:
                    # entered too late, or never
                    continue
                if s[0].a[0] in meta["ignored"]:
                    ctx.expect(not ini and not fin, "thread callbacks in an ignored thread")
                    continue
                ctx.expect(ini and ini[0][1] is not None and ini[0][1].i < s[0].i,
                           "start routine entered before init_thread had finished")
                if s[0].i > bi:
                    continue
                if not (fin and fin[0][0].i < bi):
                    running += 1
                if not ctx.expect(len(fin) == 1, "a thread running when the exit began got no fini_thread"):
                    continue
            for x in fin:
                ctx.expect(x[1] is not None and x[1].i < fi,
                           "fini_process begins before a fini_thread has finished")
                if x[0].i > bi and kt == f[0].kt:
                    # the exiting thread comes last
                    ctx.expect(all(y[0].i < x[0].i for k2, e2 in pr.kt.items() if k2 != kt
                                   for y in thread_calls(e2, "fini_thread")),
                               "the exiting thread is not the last to get fini_thread")
        if running and any(e.type == T.MAIN for e in ims[0]):
            ctx.nontrivial = ["%s/%s/%s" % (case["mode"], "+".join(sorted(set(e[2] for e in ex))),
                                            ex[0][0] if len(ex) == 1 else "concurrent")]
            if meta.get("ininit"):
                ctx.nontrivial.append("a thread in its init at exit")
            if any(e.type == T.START and e.a[0] in meta["ignored"] for e in r.log):
                ctx.nontrivial.append("ignored threads exit")
            if inh:
                ctx.nontrivial.append("a thread in a signal handler at exit")
            if meta.get("pending"):
                ctx.nontrivial.append("the exiting thread has a cancellation pending")
            if meta.get("cancel"):
                ctx.nontrivial.append("cancelled during exit")


CHECK = Check()
