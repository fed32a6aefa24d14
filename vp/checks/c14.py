"""Signal delivery, native against monitored, with a client that accepts or declines."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap, M64

FAULTS = [11, 8, 4, 7]
DELIV = [s for s in ALL_SIGS if s not in STOP_SIGS and s != 42]
pool_st = st.lists(st.one_of(st.sampled_from(DELIV), st.sampled_from([10, 12, 1, 2, 15, 17, 18, 23, 28, 11, 8, 40, 41, 64]),
                             st.sampled_from(STOP_SIGS + [42])), min_size=2, max_size=5, unique=True)
KINDS = [0, 1, 2, 3, 4]       # raise, pthread_kill self, kill, sigqueue, tgkill (and 6 pthread_sigqueue)


class G:
    """State of the generation: which signals are maskable, ignorable, the client's."""

    def __init__(self, draw, p):
        self.draw, self.p = draw, p
        self.pool = draw(pool_st)
        self.maskable = [s for s in self.pool if s != 42 and draw(st.booleans())]
        self.client = {}
        for s in self.pool:
            if s == 18 and set(self.maskable) & set(STOP_SIGS):
                continue        # SIGCONT discards pending stop signals, whoever handles it
            if s not in self.maskable and s not in STOP_SIGS and draw(st.integers(0, 2)) == 0:
                self.client[s] = draw(st.sampled_from([0, 1, 1, 1, 7, -1]))
        self.rereg = [s for s in sorted(self.client) if draw(st.booleans())]
        # at most one blocked signal may be fatal: the kernel chooses among several
        self.fatal = draw(st.sampled_from(self.maskable + [0])) if self.maskable else 0
        self.installed = {}       # what the top level installed last: avoids default stops
        self.hpos = {s: i for i, s in enumerate(self.pool)}
        self.nval = 0
        self.kinds = KINDS

    def drop(self, s):
        self.pool = [x for x in self.pool if x != s] or [10]
        self.maskable = [x for x in self.maskable if x != s]
        self.rereg = [x for x in self.rereg if x != s]
        self.client.pop(s, None)
        self.fatal = 0 if self.fatal == s else self.fatal
        self.hpos = {s: i for i, s in enumerate(self.pool)}

    def set_(self):
        d = self.draw
        out = d(st.lists(st.sampled_from(self.maskable), max_size=3)) if self.maskable else []
        out += d(st.lists(st.sampled_from([s for s in (24, 25, 27, 29, 50, 55) if s not in self.pool]), max_size=1))
        return bits(set(out))

    def value(self):
        self.nval += 1
        return 1000 + self.nval

    def mayfail(self, sig):
        """May have the default action."""
        if sig in STOP_SIGS:
            return False
        return sig not in self.maskable or sig == self.fatal and sig not in NOTERM_SIGS

    def action(self, sig, handler=None):
        """A SIGACTION for sig, with a handler routine."""
        d = self.draw
        kinds = [2, 3, 4, 5, 2, 4]
        if sig not in self.maskable:
            kinds += [1]
        if self.mayfail(sig):
            kinds += [0]
        k = d(st.sampled_from(kinds))
        fl = sum(d(st.lists(st.sampled_from([SA_RESTART, SA_NODEFER, SA_NODEFER, SA_RESETHAND, SA_NOCLDSTOP]),
                            max_size=2, unique=True)))
        if sig in STOP_SIGS or not self.mayfail(sig):
            fl &= ~SA_RESETHAND
        if k >= 4:
            fl |= SA_SIGINFO
        rout = 0
        if k >= 2 and d(st.booleans()):
            rout = self.p.new(self.handler_body(sig, k, fl)) + 1
        return ["SIGACTION", sig, k, fl, self.set_() & ~bit(42), d(st.sampled_from([1, 3])), rout]

    def handler_body(self, sig, kind, fl):
        d = self.draw
        out = []
        later = [s for s in self.pool if self.hpos[s] > self.hpos[sig] and s not in STOP_SIGS and s != 42 and
                 self.client.get(s) != 0 and s not in self.rereg]
        if self.fatal and sig in self.maskable:
            later = []
        for _ in range(d(st.integers(0, 2))):
            k = d(st.integers(0, 4))
            if k <= 1 and later:
                out.append(["RAISE", d(st.sampled_from(self.kinds)), d(st.sampled_from(later)), self.value()])
            elif k == 2:
                out.append(["MASK", d(st.integers(0, 1)), d(st.integers(0, 1)), self.set_(), 3])
            elif k == 3:
                out.append(["SIGACTION", sig, kind, fl, self.set_(), 3])
            else:
                out.append(["PENDING"])
        return out

    def step(self):
        d = self.draw
        k = d(st.integers(0, 9))
        if k <= 2:
            a = self.action(d(st.sampled_from(self.pool)))
            self.installed[a[1]] = a[2]
            return [a]
        if k == 3:
            s = d(st.sampled_from(self.pool))
            # a maskable signal must not be set to ignore
            ks = [2, 3] + ([1] if s not in self.maskable else []) + \
                ([0] if self.mayfail(s) else [])
            kk = d(st.sampled_from(ks))
            self.installed[s] = kk
            return [["SIGNAL", s, kk]]
        if k == 4:
            return [["MASK", d(st.integers(0, 1)), d(st.integers(0, 2)), self.set_(), 3]]
        if k == 5:
            return [["PENDING"], ["ERRNO", d(st.integers(1, 100))]]
        if k == 6 and d(st.integers(0, 2)) == 0:
            return self.fault()
        if k == 7 and self.rereg:
            s = d(st.sampled_from(self.rereg))
            return [["MSIGACTION", s, d(st.sampled_from([0, 1, -77, 3, -2])), 0, 0, 0]]
        ss = [s for s in self.pool if self.mayfail(s) or self.installed.get(s, 0)]
        if not ss:
            return [["PENDING"]]
        s = d(st.sampled_from(ss))
        return [["RAISE", d(st.sampled_from(self.kinds + [6])), s, self.value()]]

    def fault(self):
        d = self.draw
        s = d(st.sampled_from(FAULTS))
        if s in self.client or s in self.maskable:
            return []
        k = d(st.sampled_from([2, 4, 4, 0]))
        self.installed[s] = k
        if k == 0:
            return [["SIGACTION", s, 0, 0, 0, 1], ["RAISE", 8, s]]
        h = self.p.new([["PENDING"], ["DOLONGJMP"]])
        body = self.p.new([["RAISE", 8, s]])
        fl = (SA_SIGINFO if k == 4 else 0) | d(st.sampled_from([0, SA_NODEFER]))
        return [["SIGACTION", s, k, fl, self.set_(), 3, h + 1], ["LONGJMP", body],
                ["SIGACTION", s, k, fl, 0, 3, self.p.new([["PENDING"]]) + 1]]

    def steps(self, n):
        out = []
        for _ in range(self.draw(st.integers(1, n))):
            out += self.step()
        return out


@st.composite
def cases(draw):
    p = Prog()
    g = G(draw, p)
    mode = draw(mode_st)
    main = p.rout[0]
    where = draw(st.sampled_from(["main", "main", "main", "thread", "child", "sent", "stop"]))
    if where == "stop":
        return stop_case(draw, mode)
    if where == "child":
        # when the end of the child is reported is not determined
        g.drop(17)
    for s, ret in g.client.items():
        main.append(["MSIGACTION", s, ret, draw(st.sampled_from([0, SA_NODEFER, SA_RESETHAND, SA_ONSTACK])),
                     draw(st.sampled_from([0, M64, bits(g.pool)])), draw(st.integers(0, 1))])
    if where == "thread":
        g.kinds = [0, 1, 4]       # process-directed signals could go to either thread
    if where == "main":
        main += g.steps(12)
    elif where == "thread":
        s = p.slot()
        main += g.steps(3) + [create(s, p.arg(p.new(g.steps(10) + [["RETURN", 1]]))), ["JOIN", s]]
    elif where == "child":
        main += g.steps(4) + [["FORK", 1, 0, p.new(g.steps(8) + [["EXIT", EX._exit, 5]])], ["WAITCHILD", 1]]
    else:
        sent(g, main)
    main.append(["RETURN", 3])
    env = {"MONITOR_DEBUG": "1"} if draw(st.integers(0, 15)) == 0 else {}
    return p.case(mode, meta={"where": where, "client": g.client}, env=env)


def stop_case(draw, mode):
    """Job-control stops by the default action, in a process group that may be stopped or in an orphaned one."""
    p = Prog()
    main = p.rout[0]
    sigs = draw(st.lists(st.sampled_from(STOP_SIGS), min_size=1, max_size=3, unique=True))
    blk = draw(st.sampled_from(sigs + [0]))
    client = {}
    for s in sigs:
        if s != blk and draw(st.integers(0, 2)) == 0:
            client[s] = draw(st.sampled_from([0, 1, 1, -1]))
            main.append(["MSIGACTION", s, client[s], draw(st.sampled_from([0, SA_NODEFER, SA_RESTART])), 0, draw(st.integers(0, 1))])
    cont = draw(st.integers(0, 3))
    nval = [1000]

    def ops(n):
        out = []
        for _ in range(draw(st.integers(1, n))):
            k = draw(st.integers(0, 7))
            s = draw(st.sampled_from(sigs))
            h = draw(st.sampled_from([0, 0, 0, 2, 4] if s == blk else [0, 0, 0, 1, 2, 4]))
            nval[0] += 1
            if k == 0:
                out.append(["SIGACTION", s, h, draw(st.sampled_from([0, SA_RESTART, SA_NODEFER, SA_RESETHAND])) |
                            (SA_SIGINFO if h >= 4 else 0), 0, draw(st.sampled_from([1, 3])), 0])
            elif k == 1:
                out.append(["SIGNAL", s, min(h, 2)])
            elif k == 2 and blk:
                out.append(["MASK", draw(st.integers(0, 1)), draw(st.integers(0, 2)), draw(st.sampled_from([0, bit(blk)])), 3])
            elif k == 3 and cont:
                out.append(["RAISE", draw(st.sampled_from([0, 2, 4])), 18, nval[0]])
            else:
                out.append(["RAISE", draw(st.sampled_from(KINDS + [6])), s, nval[0]])
        return out

    body = []
    if cont:
        body.append(["SIGACTION", 18, draw(st.sampled_from([1, 2, 4])), SA_SIGINFO, 0, 1, 0])
        body[-1][3] = SA_SIGINFO if body[-1][2] >= 4 else 0
    where = draw(st.sampled_from(["stop", "stop", "stop", "orphan", "orphan child"]))
    if where == "orphan":
        main += body + ops(10)
    else:
        if draw(st.booleans()):
            main += [["SIGNAL", draw(st.sampled_from(sigs)), draw(st.sampled_from([0, 2]))]]
        main += [["FORK", 1, 0, p.new(([["PGRP"]] if where == "stop" else []) + body + ops(10) + [["EXIT", EX._exit, 5]])],
                 ["WAITSTOP", 1]]
    main.append(["RETURN", 3])
    return p.case(mode, meta={"where": where, "client": client, "hide": sigs})


def sent(g, main):
    """Signals from main to waiting threads, directed at a thread or at the process."""
    d, p = g.draw, g.p
    sigs = [s for s in g.pool if s not in STOP_SIGS and g.client.get(s) != 0]
    if not sigs:
        return
    done = p.flag()
    count = p.flag()
    for s in sigs:
        k = d(st.sampled_from([2, 3, 4, 5]))
        fl = (SA_SIGINFO if k >= 4 else 0) | d(st.sampled_from([0, SA_RESTART, SA_NODEFER]))
        main.append(["SIGACTION", s, k, fl, g.set_(), 1, p.new([["SETF", count]]) + 1])
    nt = d(st.integers(1, 3))
    slots = []
    masks = []
    ready = p.flag()
    for _ in range(nt):
        s = p.slot()
        m = [x for x in sigs if x in g.maskable and d(st.booleans())]
        masks.append(m)
        slots.append(s)
        r = p.new([["MASK", 1, 2, bits(m), 1], ["SETF", ready], ["WAITF", done, 1], ["MASK", 1, 2, 0, 3], ["RETURN", 1]])
        main.append(create(s, p.arg(r)))
    main.append(["WAITF", ready, nt])
    blk = [x for x in sigs if x in g.maskable]
    main.append(["MASK", 1, 2, bits(blk), 1])
    n = 0
    for _ in range(d(st.integers(1, 6))):
        x = d(st.sampled_from(sigs))
        open_ = [i for i in range(nt) if x not in masks[i]]
        if x in blk and len(open_) == 1 and d(st.booleans()):
            main.append(["RAISE", d(st.sampled_from([2, 3])), x, g.value()])     # only one thread can take it
        elif open_:
            i = d(st.sampled_from(open_))
            main.append(["RAISE", d(st.sampled_from([5, 9])), x, g.value(), slots[i]])
        else:
            continue
        n += 1
        main.append(["WAITF", count, n])
    main += [["SETF", done]] + [["JOIN", s] for s in slots]


class Check(BaseCheck):
    id = "C14"
    modes = ["dyn", "native", "static"]
    quick = (60, 9000)
    rule = ("A case is a generated sequence of handler installations, mask changes and deliveries (raise, kill, queue, "
            "thread-directed, faults, job-control stops), nested in handlers, in main, a thread, a forked child or sent between threads, "
            "with client handlers that accept or decline, run natively (without the signals that the client accepts) "
            "and monitored; the traces of handlers, masks and results per thread are compared. Non-trivial: a handler "
            "ran or a signal stopped or ended a process, or would stop a process of an orphaned group. Distinct by program text.")
    assumptions = ["alternate stacks and restart flags are not compared",
                   "a blocked signal's action is not set to ignore while it may be pending",
                   "at most one job-control stop signal is blocked at a time; whether it is blocked in a handler "
                   "that runs when the process is continued is not compared"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        client = {int(k): v for k, v in case["meta"]["client"].items()}
        # natively, what the client accepts does not happen
        ret = {}
        swallowed = {}
        rout = [list(q) for q in case["rout"]]
        pos = 0
        base = []
        for q in rout:
            base.append(pos)
            pos += len(q) + 1
        order = [0] + [i for i in range(2, len(rout)) if any(o[0] in ("RETURN", "EXIT") for o in rout[i])]
        for i in order:
            for j, o in enumerate(rout[i]):
                if o[0] == "MSIGACTION":
                    ret[o[1]] = None if o[2] == -77 else o[2]
                elif o[0] == "RAISE" and o[1] != 8 and ret.get(o[2]) == 0:
                    swallowed[base[i] + j] = o[2]
                    rout[i][j] = ["NAP", 0]
        n = ctx.run(case, mode="native", rout=rout)
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        core = lambda x: x & ~0x80
        ctx.expect(core(r.status) == core(n.status), "status %#x, natively %#x" % (r.status, n.status))
        K = bit(42) | bits(client) | bits(case["meta"].get("hide", []))
        sent = case["meta"]["where"] == "sent"
        fr, fn = flow(r, K, client, swallowed, sent), flow(n, K, client, {}, sent)
        if ctx.expect(sorted(fr) == sorted(fn), "threads %s, natively %s" % (sorted(fr), sorted(fn))):
            for k in sorted(fr):
                if n.status & 0x7f and fr[k][:len(fn[k])] == fn[k] and k[0] == "main":
                    # handlers of other pending signals may run before the end
                    continue
                if fr[k] != fn[k]:
                    ctx.fail("trace of %s differs: %s" % (k, next(
                        ("%s, natively %s" % (x, y) for x, y in zip(fr[k], fn[k]) if x != y),
                        "%d events, natively %d" % (len(fr[k]), len(fn[k])))))
        # the client
        self.client_side(r, ctx, client, swallowed)
        if not sent:
            self.offered(r, ctx, client)
        stops = sum(1 for e in r.log if e.type == T.RES and e.code == OP.WAITSTOP) > 1
        orphan = case["meta"]["where"].startswith("orphan")
        if any(e.type == T.HANDLER for e in r.log) or r.status & 0x7f or stops or orphan:
            ctx.nontrivial = ["%s/%s" % (case["mode"], case["meta"]["where"])]
            if client:
                ctx.nontrivial.append("client " + "+".join(sorted({"accepts" if v == 0 else "declines" for v in client.values()})))

    def client_side(self, r, ctx, client, swallowed):
        last = {}
        acc = {}
        for e in r.log:
            if e.type == T.CLIENTSIG:
                ctx.expect(e.a[5] == e.a[0], "the client got si_signo %d for signal %d" % (e.a[5], e.a[0]))
                ctx.expect(e.a[4] == 1, "the client got no context")
                if e.code == 0:
                    acc[e.a[0]] = acc.get(e.a[0], 0) + 1 if e.a[0] != 17 or e.a[1] <= 0 else 0
                    last.pop(e.kt, None)
                else:
                    last[e.kt] = e
            elif e.type == T.HANDLER:
                c = last.pop(e.kt, None)
                if c is not None and c.a[0] == e.a[0]:
                    if e.code >= 4:
                        ctx.expect(c.a[1:3] == e.a[1:3], "the client got other signal information than the handler")
                else:
                    # registered at that time?
                    if e.a[0] in client and not self.unreg(r, e):
                        ctx.fail("the handler of %d ran without the client" % e.a[0])
            elif e.type == T.RES and e.code == OP.RAISE and e.a[0] in swallowed:
                sig = swallowed[e.a[0]]
                ctx.expect(acc.pop(sig, 0) == 1, "signal %d was not offered to the client exactly once" % sig)
        acc.pop(17, None)       # sent by the kernel, too
        ctx.expect(not acc, "the client accepted signals not sent: %s" % acc)

    def offered(self, r, ctx, client):
        """Every signal that a thread sends itself is offered once while the client's handler is there."""
        reg = {}
        stack = {}
        for e in r.log:
            if e.type == T.RES and e.code == OP.MSIGACTION:
                reg[e.a[2]] = self.case_ops[e.a[0]][2] != -77
            elif e.type == T.OP and e.code == OP.RAISE:
                stack.setdefault(e.kt, []).append([e.a[0], 0])
            elif e.type == T.CLIENTSIG:
                for x in stack.get(e.kt, [])[-1:]:
                    x[1] += self.case_ops[x[0]][2] == e.a[0]
            elif e.type == T.RES and e.code == OP.RAISE:
                x = stack.get(e.kt) and stack[e.kt].pop()
                if not x or x[0] != e.a[0] or self.case_ops[x[0]][1] == 8:
                    stack.pop(e.kt, None)
                    continue
                sig = self.case_ops[x[0]][2]
                if sig in client and reg.get(sig) and sig != 17:
                    ctx.expect(x[1] == 1, "signal %d was offered to the client %d times" % (sig, x[1]))

    def unreg(self, r, e):
        """The client's handler for the signal of e was removed before e, in its process or its parent."""
        reg = [x for x in r.log if x.i < e.i and x.type == T.RES and x.code == OP.MSIGACTION and x.a[2] == e.a[0]]
        return not reg or self.opm(r, reg[-1])

    def opm(self, r, x):
        return self.case_ops[x.a[0]][2] == -77


def flow(r, K, client, swallowed, sent):
    """Events per thread (named by their start argument; main of the n-th process).

    A signal sent to another thread may come before or after the end of an earlier handler there.
    """
    out = {}
    names = {}
    np = 0
    for e in r.log:
        if e.kt not in names:
            if e.type == T.MAIN:
                names[e.kt] = ("main", 0)
            elif e.type == T.START:
                names[e.kt] = ("thread", e.a[0])
            elif e.type == T.RES and e.code == OP.FORK and e.a[1] == 0:
                np += 1
                names[e.kt] = ("main", np)
            else:
                continue
        L = out.setdefault(names[e.kt], [])
        m = lambda x: x & M64 & ~K
        if e.type == T.HANDLER:
            er = e.a[5] if e.a[0] not in client else 0
            if sent and names[e.kt][0] == "thread":
                L.append(("handler", e.code, e.a[0], e.a[1], e.a[2], e.a[7]))
                continue
            L.append(("handler", e.code, e.a[0], e.a[1], e.a[2], m(e.a[3]), m(e.a[4]), er, e.a[7]))
        elif e.type == T.HLEAVE:
            if not sent or names[e.kt][0] != "thread":
                L.append(("end of handler", e.a[0], m(e.a[1])))
        elif e.type == T.RES:
            if e.code == OP.RAISE and e.a[0] not in swallowed:
                L.append(("raise", e.a[0], e.a[1], e.a[2], m(e.a[3])))
            elif e.code == OP.MASK:
                L.append(("mask", e.a[0], e.a[1], m(e.a[4]), m(e.a[5])))
            elif e.code == OP.PENDING:
                L.append(("pending", e.a[0], m(e.a[1]), m(e.a[2])))
            elif e.code == OP.LONGJMP:
                L.append(("longjmp", e.a[0], e.a[1], m(e.a[2])))
            elif e.code == OP.SIGACTION:
                L.append(("sigaction", e.a[0], e.a[1], e.a[3]))
            elif e.code == OP.SIGNAL:
                L.append(("signal", e.a[0], e.a[1]))
            elif e.code == OP.WAITSTOP:
                L.append(("stopped by %d" % (e.a[2] >> 8) if e.a[2] & 0xff == 0x7f else "ended", e.a[2] & ~0x80))
            elif e.code == OP.WAITCHILD:
                L.append(("wait", e.a[2] & ~0x80))
        elif e.type == T.ENDR:
            L.append(("end",))
    return out


class Check14(Check):
    def judge(self, case, ctx):
        self.case_ops = opmap(case)
        super().judge(case, ctx)


CHECK = Check14()
