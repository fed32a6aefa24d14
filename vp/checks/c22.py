"""Blocking the exit sweep: histories of block and unblock against process exit."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c03 import exit_ops

EXITB, KILLED, FINID = 1, 2, 3      # flags: the exit begins, the sweep signals, a thread-fini is done
LIVES = [LV.nap, LV.pause, LV.sigwait, LV.masked, LV.cond, LV.sleep, LV.nocancel, LV.poll, LV.sigwaitinfo,
         LV.sigtimedwait, LV.sem, LV.spin, LV.smask]
FULL = (1 << 64) - 1


@st.composite
def inside(draw, synced):
    """What a thread does between block and unblock."""
    out = []
    for _ in range(draw(st.integers(0, 3))):
        out.append(draw(st.sampled_from([
            ["NAP", 50], ["NAP", 300], ["NAP", 2000], ["QUERY"], ["BLOCKSD"],
            ["MASK", 1, 0, FULL, 1], ["MASK", 0, 2, 0, 1]])))
    if synced:
        out.append(["WAITF", KILLED, 1])
        out += draw(st.lists(st.sampled_from([["NAP", 300], ["NAP", 3000], ["BLOCKSD"], ["BLOCKSD"]]), max_size=3))
    return out


@st.composite
def ending(draw):
    """Threads that end while blocked (the sweep's signals are dropped: it would signal threads that are gone)."""
    p = Prog()
    main = p.rout[0]
    joins = []
    for _ in range(draw(st.integers(1, 4))):
        s = p.slot()
        body = [["BLOCKSD"]] + draw(inside(False))
        end = draw(st.sampled_from(["RETURN", "PEXIT", "cancel"]))
        if draw(st.integers(0, 3)) == 0:
            body.append(["UNBLOCKSD"])
        if draw(st.integers(0, 3)) == 0:
            body = [["CLEANUP", p.new(body + [["PEXIT", 1]]), 5, 1]]
        elif end == "cancel":
            body += [["SETF", 4 + s], ["LIVE", draw(st.sampled_from([LV.pause, LV.cond, LV.sem, LV.sleep])), 30]]
        else:
            body.append([end, 1])
        main.append(create(s, p.arg(p.new(body)), fn=draw(st.integers(0, 3))))
        if body[-1][0] == "LIVE":
            main += [["WAITF", 4 + s, 1], ["CANCEL", s]]
        joins.append(["JOIN", s])
    v = draw(st.integers(0, 255))
    main += joins + [draw(st.sampled_from([["RETURN", v], ["EXIT", EX.exit, v], ["EXIT", EX._exit, v]]))]
    return p.case(draw(mode_st), gates=[gate("real_pthread_kill", nth=0, phase=0, what=GW.DROP)], cfg={"VCLOCK": 1},
                  meta={"exits": [["ended", v << 8, "main"]]})


@st.composite
def cases(draw):
    if draw(st.integers(0, 9)) == 0:
        return draw(ending())
    p = Prog()
    p.nflag = 6
    main = p.rout[0]
    mode = draw(mode_st)
    meta = {"exits": [], "live": 0, "ignored": []}
    gates = [gate("begin_process_exit", phase=1, set=EXITB)]
    for k in range(40):
        gates.append(gate("real_pthread_kill", nth=k, phase=0, set=KILLED)) if k < 3 else None
    side = draw(st.integers(0, 2)) == 0
    n = draw(st.integers(1, 5))
    last = draw(st.integers(0, 2)) == 0         # one thread stays blocked until all the others are finished
    initb = draw(st.integers(0, 2)) == 0
    bodies = []
    hs = [10, 12]
    for k in range(n + (1 if side else 0)):
        body = []
        ismain = k == n
        synced = draw(st.booleans())
        if last and k == 0 and n + side > 1 and draw(st.booleans()):
            # in a signal wait, which the thread-fini of another thread ends
            body += [["BLOCKSD"], ["MASK", 1, 0, bit(40), 1], ["SETF", 4],
                     ["SIGWAIT", draw(st.integers(0, 1)), draw(st.sampled_from([bit(40), FULL & ~bit(17), bit(40) | bit(42)])), 0, 0]]
            if draw(st.booleans()):
                body += draw(inside(False))
            body += [["UNBLOCKSD"]]
            gates.append(gate("fini_thread", nth=1, phase=draw(st.integers(0, 1)), what=GW.RUN | p.new([["RAISE", 5, 40, 0, 0]]) << 8))
        elif last and k == 0:
            body += [["BLOCKSD"], ["SETF", 4], ["WAITF", FINID, n - 1 + (1 if side else 0)]]
            if draw(st.booleans()):
                body += draw(inside(False))
            body += [["UNBLOCKSD"]]
        else:
            for _ in range(draw(st.integers(0, 2))):
                r = p.new([["BLOCKSD"]] + draw(inside(False)) + [["UNBLOCKSD"]] +
                          draw(st.lists(st.sampled_from([["NAP", 50], ["NAP", 0], ["QUERY"]]), max_size=2)))
                w = draw(st.integers(0, 3))
                if w == 3 and hs:
                    # as a handler (of the application) does it
                    h = hs.pop()
                    body += [["SIGACTION", h, 2, 0, 0, 1, r + 1], ["RAISE", draw(st.integers(0, 1)), h]]
                else:
                    body.append(["CALL", r, draw(st.sampled_from([1, 1, 5, 20, 100]))])
            if synced:
                body += [["BLOCKSD"], ["SETF", 4]] + draw(inside(True)) + [["UNBLOCKSD"]]
            else:
                body += [["SETF", 4]]
            if draw(st.integers(0, 3)) == 0:
                r = p.new([["BLOCKSD"]] + draw(inside(False)) + [["UNBLOCKSD"], ["NAP", draw(st.sampled_from([0, 50, 2000]))]])
                body.append(["CALL", r, draw(st.sampled_from([1, 5, 40]))])
        body.append(["LIVE", draw(st.sampled_from(LIVES)), 5])
        bodies.append(body)
        if ismain:
            continue
        s = p.slot()
        if initb and draw(st.integers(0, 1)) == 0:
            # blocks in its thread-init
            gates.append(gate("init_thread", nth=k + 1, phase=0, what=GW.RUN | p.new([["BLOCKSD"]]) << 8))
            body[0:0] = [["NAP", draw(small_us())], ["UNBLOCKSD"]]
        if initb:
            body.insert(0, ["SETF", 40])
        main.append(create(s, p.arg(p.new(body)), attr=draw(st.sampled_from([AT.null, AT.detached])), fn=draw(st.integers(0, 3))))
        if initb:
            main.append(["WAITF", 40, k + 1])
    ready = draw(st.integers(0, n)) if not last else n + int(side)
    if ready:
        wait = [["WAITF", 4, ready]]
    else:
        wait = [["NAP", draw(small_us())]]
    kinds = ["exit", "_exit", "_Exit", "abort", "signal", "exec"]
    if side:
        k, ops, exp = exit_ops(draw, p, kinds, "side", meta)
        if k == "signal" and exp in (10, 12):
            ops, exp = [["EXIT", EX.exit, 4]], 0x400
        main.append(create(p.slot(), p.arg(p.new(wait + [["NAP", draw(small_us())]] + ops))))
        main += bodies[n]
    else:
        main += wait
        k, ops, exp = exit_ops(draw, p, ["return"] + kinds, "main", meta)
        if k == "signal" and exp in (10, 12):
            ops, exp = [["EXIT", EX.exit, 4]], 0x400
        if draw(st.integers(0, 3)) == 0:
            main += [["BLOCKSD"], ["UNBLOCKSD"]]
        main += [["NAP", draw(small_us())]] + ops
    meta["exits"] = [[k, exp, "side" if side else "main"]]
    for _ in range(draw(st.integers(0, 2))):
        # in callbacks
        at = draw(st.sampled_from(["begin_process_exit", "fini_thread", "fini_process", "fini_thread"]))
        gates.append(gate(at, nth=draw(st.integers(2, 3)) if at == "fini_thread" else 1, phase=draw(st.integers(0, 1)), what=GW.RUN | p.new([["BLOCKSD"], ["UNBLOCKSD"]]) << 8))
    for k in range(n + 2):
        gates.append(gate("fini_thread", nth=k + 1, phase=1, set=FINID))
    gates += draw(noise_gates(["begin_process_exit", "fini_thread", "usleep", "real_pthread_kill"], 3))
    return p.case(mode, gates=gates, meta=meta, timeout=25000)


class Check(BaseCheck):
    id = "C22"
    modes = ["dyn", "static"]
    quick = (60, 6000)
    rule = ("A case is a generated history of blocking and unblocking in several threads (loops, nested blocks, in signal "
            "handlers, in thread-init, across signal waits and masks, until the sweep has begun, until every other thread is finished), "
            "main among them, against an exit by main or by another thread by a generated route, with generated delays. "
            "Non-trivial: a thread was blocked when the exit began. Distinct by program text.")
    assumptions = ["threads end, exit the process and fork only while unblocked", "no thread stays blocked for more than a few seconds of the exit"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        k, exp, who = meta["exits"][0]
        ctx.expect(r.status == exp, "status %#x, expected %#x" % (r.status, exp))
        pr = Proc(split_exec([e for e in r.log if e.pid == r.main_pid])[0])
        b, bl, f = pr.cb("begin_process_exit"), pr.cb("begin_process_exit", T.CB_LEAVE), pr.cb("fini_process")
        if not ctx.expect(len(b) == 1 and len(bl) == 1 and len(f) == 1, "exit callbacks: %d, %d, %d" % (len(b), len(bl), len(f))):
            return
        bi, fi = bl[0].i, f[0].i
        # the sweep has begun when a thread that had not ended gets its fini
        sweep = fi if len(pr.kt) > 1 else None
        begun = []
        for kt, evs in pr.kt.items():
            fin = thread_calls(evs, "fini_thread")
            if fin and not (kt != r.main_pid and any(e.type == T.ENDR and e.i < fin[0][0].i for e in evs)):
                begun.append(fin[0][0].i)
        if begun:
            sweep = min(begun)
        tags = set()
        for kt, evs in pr.kt.items():
            blocked = False
            fin = thread_calls(evs, "fini_thread")
            started = kt == r.main_pid or any(e.type == T.START for e in evs)
            atexit = False
            seen = False
            op = None
            for e in evs:
                if not seen and e.i > bi:
                    atexit = blocked
                    seen = True
                if e.type == T.OP and e.code == OP.BLOCKSD:
                    op = e
                elif e.type == T.RES and e.code == OP.BLOCKSD:
                    blocked = True
                    if e.i < bi:
                        ctx.expect(e.a[1] == 0, "blocking says %d before the exit has begun" % e.a[1])
                    elif sweep is not None and op.i > sweep:
                        ctx.expect(e.a[1] == 1, "blocking says %d when threads are being finished" % e.a[1])
                        tags.add("told")
                    else:
                        ctx.expect(e.a[1] in (0, 1), "blocking says %d" % e.a[1])
                elif e.type == T.OP and e.code == OP.UNBLOCKSD:
                    blocked = False
                elif e.type == T.CB_ENTER and e.code == CB.fini_thread:
                    if not ctx.expect(not blocked, "fini_thread in a thread that has blocked it"):
                        return
            want = None
            if kt == r.main_pid:
                want = 0 if who == "main" else 1
            else:
                s = [e for e in evs if e.type == T.START]
                if s and s[0].i < bi:
                    want = 1
                    if blocked and k == "ended":
                        want = 0
                        tags.add("%s/ends blocked" % case["mode"])
            ctx.expect(len(fin) <= 1, "fini_thread called %d times" % len(fin))
            if want is not None:
                ctx.expect(len(fin) == want, "%d calls of fini_thread, expected %d%s" % (
                    len(fin), want, " (was blocked)" if atexit else ""))
            for x in fin:
                ctx.expect(x[1] is not None and x[1].i < fi, "fini_process begins before a fini_thread has finished")
            if atexit:
                tags.add("%s/%s blocked/%s" % (case["mode"], "main" if kt == r.main_pid else "thread", k))
        if any("blocked" in t for t in tags):
            ctx.nontrivial = sorted(tags)


CHECK = Check()
