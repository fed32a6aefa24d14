"""sigwait, sigwaitinfo and sigtimedwait."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap, M64

POOL = [s for s in ALL_SIGS if s != 18]
SYNC = bits([11, 7, 4, 5, 8, 31])
EINVAL, EAGAIN = 22, 11


class Model:
    """The pending signals of one thread and of its process; the client's handlers."""

    def __init__(self, client):
        self.q = [[], []]         # (sig, code, value), in order of arrival
        self.blocked = 0
        self.client = client
        self.ret = {}
        self.offered = []

    def send(self, kind, sig, value):
        q = self.q[kind in (2, 3)]
        if sig < 34 and any(x[0] == sig for x in q):
            return
        # (libc reports a tkill as by kill here)
        q.append((sig, {0: 0, 1: 0, 4: 0, 2: 0, 3: -1, 6: -1}[kind], value if kind in (3, 6) else None))

    def take(self, set_):
        for q in self.q:
            m = [x for x in q if set_ & bit(x[0])]
            if m:
                x = min(m, key=lambda x: (not SYNC & bit(x[0]), x[0]))
                x = next(y for y in q if y[0] == x[0])
                q.remove(x)
                return x
        return None

    def wait(self, set_):
        """The signal returned, or None."""
        while True:
            x = self.take(set_)
            if x is None:
                return None
            if self.client and self.ret.get(x[0]) is not None:
                self.offered.append((x, self.ret[x[0]]))
                if self.ret[x[0]] == 0:
                    continue
            return x


def play(ops, client):
    """Expected results of the waits in ops: (ret, errno, sig, code, value)."""
    m = Model(client)
    out = []
    for o in ops:
        if o[0] == "RAISE":
            m.send(o[1], o[2], o[3])
        elif o[0] == "MSIGACTION":
            m.ret[o[1]] = None if o[2] == -77 else o[2]
        elif o[0] == "SIGWAIT":
            kind, set_, us = o[1:4]
            if kind == 2 and us < 0:
                out.append((o, None, EINVAL))
                continue
            x = m.wait(set_)
            out.append((o, x, EAGAIN if x is None else 0))
    return out, m


@st.composite
def queue_case(draw):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    pool = draw(st.lists(st.one_of(st.sampled_from(POOL), st.sampled_from([34, 42, 64, 10, 11, 17, 1])), min_size=1,
                         max_size=6, unique=True))
    others = draw(st.sampled_from([0, 0, bits(POOL) & ~bits(pool), M64 & ~bits(pool)]))
    pre = [["MASK", 1, 0, bits(pool), 1]]
    if 42 in pool:
        pre.append(["MASK", 3, 0, bit(42), 1])        # the client's own sigmask
    for s in pool:
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from([2, 4, 1]))
            pre.append(["SIGACTION", s, k, 0, 0, 1])
            if k == 1:
                # an ignored signal is pending all the same if it is blocked
                pass
    ops = []
    reg = [s for s in pool if draw(st.integers(0, 2)) == 0]
    for s in reg:
        ops.append(["MSIGACTION", s, draw(st.sampled_from([0, 0, 0, 1, 5, -1, -5, 1 << 30, -(1 << 31)])), 0, draw(st.sampled_from([0, M64])),
                    draw(st.integers(0, 1))])
    nv = 0
    setst = st.one_of(st.lists(st.sampled_from(pool), min_size=1, max_size=4).map(bits), st.just(bits(pool)))
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 9))
        if k <= 4:
            nv += 1
            ops.append(["RAISE", draw(st.sampled_from([0, 1, 2, 3, 3, 4, 6, 6])), draw(st.sampled_from(pool)), 100 + nv])
        elif k == 5 and draw(st.booleans()):
            ops.append(["MSIGACTION", draw(st.sampled_from(pool)), draw(st.sampled_from([0, 1, -1, -77])), 0, 0, 0])
        else:
            set_ = draw(setst) | others * draw(st.integers(0, 1))
            kind = draw(st.integers(0, 2))
            us = draw(st.sampled_from([0, 0, 0, 300, -5, 1000000]))
            w = ["SIGWAIT", kind, set_, us, draw(st.sampled_from([0, 0, 0, 1])), -1]
            if kind < 2 or us == 1000000:
                # must not wait for ever (natively neither)
                if any(play(ops + [w], c)[0][-1][1] is None for c in (True, False)):
                    w[1], w[3] = 2, draw(st.sampled_from([0, 200]))
            ops.append(w)
    for _ in range(3):
        ops.append(["SIGWAIT", 2, bits(pool), 0, 0, -1])
    where = draw(st.sampled_from(["main", "main", "thread", "child"]))
    if where == "main":
        main += pre + ops
    elif where == "thread":
        s = p.slot()
        main += pre + [create(s, p.arg(p.new((pre[1:2] if 42 in pool else []) + ops + [["RETURN", 1]]))), ["JOIN", s]]
    else:
        main += [["FORK", 1, 0, p.new(pre + ops + [["EXIT", EX._exit, 0]])], ["WAITCHILD", 1]]
    main.append(["RETURN", 0])
    env = {"MONITOR_DEBUG": "1"} if draw(st.integers(0, 15)) == 0 else {}
    return p.case(mode, meta={"kind": "queue/" + where, "seq": ops}, env=env)


@st.composite
def threads_case(draw):
    """Threads that wait while signals come, each thread for its own."""
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    pool = draw(st.permutations([s for s in POOL if s not in STOP_SIGS and s != 42]))
    nt = draw(st.integers(1, 4))
    done, count = p.flag(), p.flag()
    per = []
    allsig = 0
    client = {}
    for i in range(nt):
        mine = list(pool[i * 5:i * 5 + 3])
        acc = list(pool[i * 5 + 3:i * 5 + 5])
        allsig |= bits(mine + acc)
        for s in acc:
            client[s] = 0
        for s in mine:
            if draw(st.integers(0, 3)) == 0:
                client[s] = draw(st.sampled_from([1, 2, -1]))
        per.append((mine, acc))
    main.append(["MASK", draw(st.integers(0, 1)), 0, allsig, 1])
    for s, r in client.items():
        main.append(["MSIGACTION", s, r, 0, 0, 0])
    slots, spec, sends = [], [], []
    for i, (mine, acc) in enumerate(per):
        body = []
        n = draw(st.integers(1, 4))
        exp = []
        for _ in range(n):
            s = draw(st.sampled_from(mine))
            kind = draw(st.integers(0, 2))
            extra = draw(st.sampled_from([0, 0, bit(42), M64 & ~allsig]))
            body += [["SIGWAIT", kind, bits(mine + acc) | extra, 20000000, 0, -1], ["SETF", count]]
            exp.append(s)
        body += [["WAITF", done, 1]]
        body += [["SIGWAIT", 2, bits(mine + acc), 0, 0, -1]] * 2
        body.append(["RETURN", 1])
        arg = p.arg(p.new(body))
        sl = p.slot()
        slots.append(sl)
        main.append(create(sl, arg))
        spec.append({"arg": arg, "exp": exp, "acc": {}})
        for s in exp:
            sends.append((i, s))
    sends = draw(st.permutations(sends))
    pos = [0] * nt
    n = 0
    v = 0
    for i, _ in sends:
        s = spec[i]["exp"][pos[i]]
        pos[i] += 1
        if draw(st.booleans()):
            a = draw(st.sampled_from(per[i][1]))
            c = spec[i]["acc"].get(str(a), 0)
            if a >= 34 or c == 0:
                spec[i]["acc"][str(a)] = c + 1
                v += 1
                main.append(["RAISE", draw(st.sampled_from([5, 9])), a, 500 + v, slots[i]])
                if draw(st.booleans()):
                    main.append(["NAP", draw(small_us())])
        v += 1
        kind = draw(st.sampled_from([5, 9, 2, 3]))
        main.append(["RAISE", kind, s, 500 + v] + ([slots[i]] if kind in (5, 9) else []))
        spec[i].setdefault("val", []).append([500 + v if kind in (9, 3) else None, {5: 0, 9: -1, 2: 0, 3: -1}[kind]])
        n += 1
        main.append(["WAITF", count, n])
    main.append(["SETF", done])
    if draw(st.booleans()):
        main += [["JOIN", s] for s in slots]
    else:
        main += [["JOIN", s] for s in slots[1:]] + [["JOIN", slots[0]]]
    main.append(["RETURN", 0])
    return p.case(mode, meta={"kind": "threads", "spec": spec, "client": client})


@st.composite
def exit_case(draw):
    """The process exits while threads wait."""
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    nt = draw(st.integers(1, 5))
    waits = []
    args = []
    for s in draw(st.lists(st.sampled_from([42, 42, 10, 12, 40, 64]), max_size=2, unique=True)):
        main.append(["MSIGACTION", s, draw(st.sampled_from([0, 1])), 0, 0, 0])
    for _ in range(nt):
        f = p.flag()
        set_ = draw(st.one_of(st.sampled_from([M64, bit(42), 0, M64 & ~bit(42), bits([42, 10]), bit(12)]), st.integers(0, M64)))
        body = []
        if draw(st.booleans()):
            body.append(["MASK", draw(st.integers(0, 1)), 2, draw(st.sampled_from([M64, set_])), 1])
        body += [["SIGWAIT", draw(st.integers(0, 2)), set_, 20000000, draw(st.integers(0, 1)), f], ["RETURN", 1]]
        arg = p.arg(p.new(body))
        args.append(arg)
        main.append(create(p.slot(), arg, attr=draw(st.sampled_from([AT.null, AT.detached]))))
        if draw(st.integers(0, 5)):
            waits.append(["WAITLIVE", f, 1])
    main += waits
    if draw(st.booleans()):
        main.append(["NAP", draw(small_us())])
    v = draw(st.integers(0, 255))
    end = draw(st.sampled_from(["return", "exit", "side"]))
    if end == "return":
        main.append(["RETURN", v])
    elif end == "exit":
        main.append(["EXIT", draw(st.sampled_from([EX.exit, EX._exit])), v])
    else:
        main.append(create(p.slot(), p.arg(p.new([["EXIT", EX.exit, v]]))))
        f = p.flag()
        main += [["SIGWAIT", draw(st.integers(0, 1)), draw(st.sampled_from([bit(42), M64, bit(10)])), 0, 0, f], ["RETURN", v]]
    gates = draw(noise_gates(["begin_process_exit", "fini_thread", "usleep", "real_pthread_kill"], 3))
    return p.case(mode, gates=gates, meta={"kind": "exit", "args": args, "status": v << 8, "all": len(waits) == nt},
                  timeout=25000)


class Check(BaseCheck):
    id = "C15"
    modes = ["dyn", "native", "static"]
    quick = (60, 9000)
    rule = ("A case is a generated sequence of blocked pending signals (private and process-wide, queued, coalesced), "
            "client registrations and waits; or threads that wait while others send; or a process exit while threads "
            "wait for generated sets. Results are compared with a model of the pending queues, and the native program "
            "with the same model. Non-trivial: a wait returned a signal, a client accepted one, or a waiting thread "
            "was finished. Distinct by program text.")
    assumptions = ["signals awaited by the application are blocked", "waits interrupted by handlers are not compared",
                   "the length of a timeout after the client accepted a signal is not compared"]

    def strategy(self, tier):
        return st.one_of(queue_case(), queue_case(), threads_case(), exit_case())

    def judge(self, case, ctx):
        {"queue": self.queue, "thread": self.threads, "exit": self.exit}[case["meta"]["kind"].split("/")[0].rstrip("s")](
            case, ctx)

    def queue(self, case, ctx):
        ops = case["meta"]["seq"]
        n = ctx.run(case, mode="native")
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate" + (" natively" if n.timed_out else ""))
            return
        ctx.expect(r.status == 0 and n.status == 0, "status %#x, natively %#x" % (r.status, n.status))
        for run, client, who in ((n, False, "natively"), (r, True, "monitored")):
            exp, m = play(ops, client)
            got = [e for e in run.log if e.type == T.RES and e.code == OP.SIGWAIT]
            if not ctx.expect(len(got) == len(exp), "%d waits returned %s, expected %d" % (len(got), who, len(exp))):
                return
            for e, (o, x, err) in zip(got, exp):
                want = self.want(o, x, err)
                have = self.have(o, e, x)
                ctx.expect(have == want, "%s %s gives %s, expected %s" % (who, o, have, want))
            off = [(e.a[0], e.a[1], e.a[2] if e.a[1] == -1 else None, e.code) for e in run.log if e.type == T.CLIENTSIG]
            if client:
                want = [(x[0], x[1], x[2], ret & 0xffff) for x, ret in m.offered]
                ctx.expect(off == want, "offered to the client: %s, expected %s" % (off, want))
            ctx.expect(not any(e.type == T.HANDLER for e in run.log), "a handler ran " + who)
        k = bit(42)
        gn = [e.a[7] & M64 & ~k for e in n.log if e.type == T.RES and e.code == OP.SIGWAIT]
        gr = [e.a[7] & M64 & ~k for e in r.log if e.type == T.RES and e.code == OP.SIGWAIT]
        ctx.expect(gn == gr, "the mask after a wait differs")
        if any(x is not None for _, x, _ in exp) or m.offered:
            ctx.nontrivial = ["%s/%s" % (case["mode"], case["meta"]["kind"])]
            ctx.nontrivial += sorted({"client accepts" if x == 0 else "client declines" for _, x in m.offered})

    def want(self, o, x, err):
        kind, noinfo = o[1], o[4]
        if x is None:
            return (err, None) if kind == 0 else (-1, err)
        if kind == 0:
            return (0, x[0])
        return (x[0],) + (() if noinfo else (x[0], x[1], x[2]))

    def have(self, o, e, x):
        kind, noinfo = o[1], o[4]
        if kind == 0:
            return (e.a[1], None if e.a[1] else e.a[3])
        if e.a[1] < 0:
            return (e.a[1], e.a[2])
        return (e.a[1],) + (() if noinfo else (e.a[4], e.a[5], e.a[6] if e.a[5] == -1 else None))

    def threads(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == 0, "status %#x" % r.status)
        ctx.expect(not any(e.type == T.HANDLER for e in r.log), "a handler ran")
        client = {int(k): v for k, v in meta["client"].items()}
        pr = Proc(r.log)
        st_ = pr.starts()
        for sp in meta["spec"]:
            s = st_.get(sp["arg"], [])
            if not ctx.expect(len(s) == 1, "a thread did not start"):
                continue
            evs = pr.kt[s[0].kt]
            w = [e for e in evs if e.type == T.RES and e.code == OP.SIGWAIT]
            ops = opmap(case)
            if not ctx.expect(len(w) == len(sp["exp"]) + 2, "%d waits returned" % len(w)):
                continue
            for e, s_, (val, code) in zip(w, sp["exp"], sp["val"]):
                o = ops[e.a[0]]
                want = self.want(o, (s_, code, val), 0)
                have = self.have(o, e, None)
                ctx.expect(have == want, "a wait gives %s, expected %s" % (have, want))
            for e in w[-2:]:
                ctx.expect(e.a[1] == -1 and e.a[2] == EAGAIN, "the last wait gives %d, errno %d" % (e.a[1], e.a[2]))
            acc = {}
            for e in evs:
                if e.type == T.CLIENTSIG:
                    ctx.expect(e.a[5] == e.a[0] and e.a[4] == 1, "the client got signal %d with si_signo %d" % (e.a[0], e.a[5]))
                    acc[e.a[0]] = acc.get(e.a[0], 0) + 1
            want = {int(k): v for k, v in sp["acc"].items()}
            for s_ in sp["exp"]:
                if s_ in client:
                    want[s_] = want.get(s_, 0) + 1
            ctx.expect(acc == want, "offered to the client %s, expected %s" % (acc, want))
        ctx.nontrivial = ["%s/threads" % case["mode"]]

    def exit(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == meta["status"], "status %#x, expected %#x" % (r.status, meta["status"]))
        pr = Proc(r.log)
        b, f = pr.cb("begin_process_exit"), pr.cb("fini_process")
        if not ctx.expect(len(b) == 1 and len(f) == 1, "%d begin_process_exit, %d fini_process" % (len(b), len(f))):
            return
        n = 0
        for arg in meta["args"]:
            for s in pr.starts().get(arg, []):
                evs = pr.kt[s.kt]
                if s.i > b[0].i:
                    continue
                fin = thread_calls(evs, "fini_thread")
                if ctx.expect(len(fin) == 1, "a waiting thread got %d fini_thread" % len(fin)):
                    n += 1
                    ctx.expect(fin[0][1] is not None and fin[0][1].i < f[0].i, "fini_process begins before fini_thread has finished")
                res = [e for e in evs if e.type == T.RES and e.code == OP.SIGWAIT]
                ctx.expect(not res, "a wait returned when the process exits")
        if n:
            ctx.nontrivial = ["%s/exit" % case["mode"]]


CHECK = Check()
