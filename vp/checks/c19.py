"""Broadcast signals: who gets them, how often."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap

SIGS = [s for s in range(35, 61) if s != 42]
CALLBACKS = ["thread_pre_create", "thread_post_create", "init_thread", "fini_thread", "pre_fork", "post_fork",
             "init_thread_support", "begin_process_exit", "fini_process", "at_main", "init_process", "reset_stacksize"]
READY, GO, INGATE, GO2, BDONE = 1, 2, 3, 4, 5


@st.composite
def cases(draw):
    p = Prog()
    p.nflag = 8
    mode = draw(mode_st)
    steady = draw(st.integers(0, 2)) > 0
    main = p.rout[0]
    gates = []
    sigs = list(SIGS)
    used = []

    def sig():
        s = sigs.pop(draw(st.integers(0, len(sigs) - 1)))
        used.append(s)
        return s

    # where the broadcasts are made
    def bcast(where):
        k = draw(st.integers(0, 3))
        s = sig()
        if k == 3 and where != "child":
            # from a signal handler
            h = draw(st.sampled_from([x for x in (10, 12) if x not in hs] or [0]))
            if h:
                hs.add(h)
                return [["SIGACTION", h, 2, 0, 0, 1, p.new([["BROADCAST", s]]) + 1], ["RAISE", draw(st.sampled_from([0, 1])), h]]
        return [["BROADCAST", s]]

    hs = set()
    fphase, iphase = draw(st.integers(0, 1)), draw(st.integers(0, 1))
    awaited = set()
    nth = draw(st.integers(0, 5))
    acts = []
    ncall = draw(st.integers(1, 3))
    for _ in range(ncall):
        acts += bcast("main")
    waitsigs = [o[1] for q in p.rout for o in q if o[0] == "BROADCAST"] + [o[1] for o in acts if o[0] == "BROADCAST"]
    caller_thread = draw(st.booleans())
    joins = []
    nready = 0
    ngate = 0
    created = 0
    ignored = 0
    pre = []
    for k in range(nth):
        kind = draw(st.sampled_from(["wait", "wait", "wait", "masked", "sigwait", "live", "ignored", "done", "fini", "init"]))
        s = p.slot()
        hint = 0
        if kind in ("wait", "init"):
            body = [["SETF", READY], ["WAITF", GO, 1], ["RETURN", 1]]
        elif kind == "ignored":
            body = [["SETF", READY], ["WAITF", GO, 1], ["RETURN", 1]]
            hint = HINT.IGNORE
        elif kind == "masked":
            m = draw(st.sampled_from([(1 << 64) - 1, bits(SIGS)]))
            body = [["MASK", 1, 0, m, 1], ["SETF", READY], ["WAITF", GO, 1], ["MASK", 1, 1, m, 1], ["RETURN", 1]]
        elif kind == "sigwait":
            w = draw(st.sampled_from(waitsigs))
            awaited.add(w)      # (one that the client takes would not end the wait)
            body = [["MASK", 1, 0, bit(w), 1], ["SETF", READY], ["SIGWAIT", draw(st.integers(0, 2)) if steady else 2, bit(w), 3000000 if steady else 20000, 0],
                    ["WAITF", GO, 1], ["MASK", 1, 1, bit(w), 1], ["RETURN", 1]]      # (the wait may have run out of time)
            if draw(st.booleans()):
                body.insert(2, ["WAITF", GO, 1])    # it is pending by the time it waits
        elif kind == "live":
            body = [["SETF", READY], ["LIVE", draw(st.sampled_from([LV.nap, LV.pause, LV.sem, LV.poll, LV.nocancel, LV.spin])), 7]]
        else:
            body = [["RETURN", 1]]
        if not steady:
            body = draw(st.lists(st.sampled_from([["NAP", 50], ["NAP", 400], ["QUERY"]]), max_size=2)) + body
        r = p.new(body)
        main.append(create(s, p.arg(r), hint=hint))
        if kind != "ignored":
            created += 1
        if kind == "done":
            main.append(["JOIN", s])
        elif kind == "fini" and steady:
            # held in its fini callback
            gates.append(gate("fini_thread", nth=1 + len([g for g in gates if g["point"] == CB.fini_thread]) + pre.count("done"),
                              phase=fphase, set=INGATE, wait=GO2))
            ngate += 1
            main.append(["WAITF", INGATE, ngate])
            joins.append(s)
        elif kind == "init" and steady:
            gates.append(gate("init_thread", nth=created, phase=iphase, set=INGATE, wait=GO2))
            ngate += 1
            main.append(["WAITF", INGATE, ngate])
            joins.append(s)
        else:
            if kind != "fini":
                nready += 1
            if kind != "live":
                joins.append(s)
        if steady and kind not in ("init", "fini", "done"):
            main.append(["WAITF", READY, nready])
        pre.append(kind)
    if not steady and draw(st.booleans()) or steady:
        main.append(["WAITF", READY, nready])
    forked = draw(st.integers(0, 3)) == 0
    if forked:
        sub = []
        sub += bcast("child") if draw(st.booleans()) else []
        if draw(st.booleans()):
            s2 = p.slot()
            r2 = p.new([["SETF", 6], ["WAITF", BDONE, 1], ["RETURN", 1]])
            sub += [create(s2, p.arg(r2)), ["WAITF", 6, 1]] + bcast("child") + [["SETF", BDONE], ["JOIN", s2]]
        else:
            sub += [["WAITF", BDONE, 1]]
        rc = p.new(sub + [["EXIT", draw(st.sampled_from([EX._exit, EX.exit])), 2]])
        if draw(st.booleans()):
            main.append(["FORK", 1, 0, rc])
        else:
            s = p.slot()
            main += [create(s, p.arg(p.new([["FORK", 1, 0, rc], ["RETURN", 1]]))), ["JOIN", s]]
    if caller_thread:
        s = p.slot()
        main += [create(s, p.arg(p.new(acts + [["RETURN", 1]]))), ["JOIN", s]]
    else:
        main += acts
    main += [["SETF", GO2], ["SETF", GO], ["SETF", BDONE]]
    if forked:
        main.append(["WAITCHILD", 1])
    main += [["JOIN", s] for s in joins]
    main.append(["BROADCAST", sig()])
    main.append(["RETURN", 3])
    if not steady:
        # from callbacks
        for _ in range(draw(st.integers(0, 2))):
            r = p.new([["BROADCAST", sig()]])
            gates.append(gate(draw(st.sampled_from(CALLBACKS)), nth=draw(st.integers(1, 4)), phase=draw(st.integers(0, 1)),
                              what=GW.RUN | r << 8))
        gates += draw(noise_gates(["init_thread", "fini_thread", "thread_pre_create", "thread_post_create"]))
    hd = []
    for s in sorted(used):
        if s not in awaited and draw(st.integers(0, 3)) == 0:
            hd.append(["MSIGACTION", s, 0, 0, 0, 0])
        else:
            hd.append(["SIGACTION", s, 4, SA_SIGINFO, 0, 1])
    p.rout[0] = hd + main
    return p.case(mode, gates=gates, steady=int(steady))


class Check(BaseCheck):
    id = "C19"
    modes = ["dyn", "static"]
    quick = (45, 6000)
    rule = ("A case is a generated population of threads (waiting, masked, in a signal wait, never ending, ignored by the client, "
            "finished, held inside thread-init or thread-fini, children with threads of their own) and broadcasts of distinct "
            "queued signals by main, a thread, a forked child, signal handlers and callbacks, in steady states and racing with starts and ends. "
            "Non-trivial: a successful broadcast had at least one thread which had to receive it. Distinct by program text.")
    assumptions = ["a thread between the end of thread-init and its start routine, or between its last operation and the begin of "
                   "thread-fini, may or may not be reached",
                   "delivery is judged for threads that go on running after the broadcast"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 0x300, "status %#x" % r.status)
        ops = opmap(case)
        tags = set()
        pids = by_pid(r)
        sigs_by_pid = {}
        for pid, evs in pids.items():
            pr = Proc(evs)
            bc = {}         # sig -> [(op, res)]
            for kt, tev in pr.kt.items():
                cur = []
                for e in tev:
                    if e.type == T.OP and e.code == OP.BROADCAST:
                        cur.append(e)
                    elif e.type == T.RES and e.code == OP.BROADCAST:
                        bc.setdefault(e.a[2], []).append((cur.pop(), e))
                ctx.expect(not cur, "a broadcast did not return")
            got = {}
            for e in evs:
                k = None
                if e.type in (T.HANDLER, T.CLIENTSIG):
                    k = (e.kt, e.a[0])
                elif e.type == T.RES and e.code == OP.SIGWAIT:
                    w = (e.a[3] if e.a[1] == 0 else 0) if ops[e.a[0]][1] == 0 else e.a[1]
                    if w > 0:
                        k = (e.kt, w)
                if k is not None:
                    got[k] = got.get(k, 0) + 1
            for (kt, s) in got:
                if s in SIGS:
                    ctx.expect(s in bc, "thread %d got signal %d, which was not broadcast in its process" % (kt, s))
            for s, lst in bc.items():
                for o, e in lst:
                    ctx.expect(e.a[1] in (0, -1), "broadcast returned %d" % e.a[1])
                    if case.get("steady"):
                        ctx.expect(e.a[1] == 0, "broadcast returned %d with no thread starting or ending" % e.a[1])
                for kt, tev in pr.kt.items():
                    lo = hi = 0
                    for o, e in lst:
                        a, b = self.bounds(pid, kt, tev, o, e)
                        lo += a
                        hi += b
                    n = got.get((kt, s), 0)
                    if lo:
                        tags.add("%s/%s" % (case["mode"], "steady" if case.get("steady") else "racing"))
                    if not ctx.expect(lo <= n <= hi, "signal %d: thread %d%s got it %d times, expected %s" % (
                            s, kt, " (main)" if kt == pid else "", n, lo if lo == hi else "%d to %d" % (lo, hi))):
                        return
                if any(e.a[1] != 0 for o, e in lst):
                    tags.add("refused")
        ctx.nontrivial = sorted(tags)

    @staticmethod
    def bounds(pid, kt, tev, o, e):
        """Least and greatest number of deliveries of one broadcast to one thread."""
        if e.a[1] != 0 or kt == o.kt:
            return 0, 0
        if kt == pid:
            beg = next((x for x in tev if x.type == T.MAIN), None)
            fini = None
            if beg is None:
                # the child of a fork: its main thread from the first event on
                beg = tev[0]
        else:
            ini = thread_calls(tev, "init_thread")
            if not ini or ini[0][1] is None or ini[0][1].i > e.i:
                return 0, 0                # ignored, or still in thread-init
            f = thread_calls(tev, "fini_thread")
            fini = f[0][0] if f else None
            if fini is not None and fini.i < o.i:
                return 0, 0
            beg = next((x for x in tev if x.type == T.START), None)
        if beg is None or beg.i > o.i:
            return 0, 1
        later = any(x.i > e.i and x.type in (T.RES, T.ENDR) and (fini is None or x.i < fini.i) for x in tev)
        return (1 if later else 0), 1


CHECK = Check()
