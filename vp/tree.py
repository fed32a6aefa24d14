"""Generated process trees: forks from main, threads, exit handlers and signal
handlers; threads, system() and failing calls in every process."""
from hypothesis import strategies as st

from .gen import *
from .oracle import *
from .proto import *


def opmap(case):
    """op index in the shared block -> (routine, op)"""
    m = {}
    n = 0
    for r, ops in enumerate(case["rout"]):
        for op in ops:
            m[n] = (r, op)
            n += 1
        n += 1
    return m


class T_:
    """Generation state."""

    def __init__(self, p):
        self.p = p
        self.kids = {}       # child routine -> expected wait status
        self.nfork = 0
        self.nthr = 0
        self.npid = 0
        self.nsys = 0
        self.nlive = 0
        self.handlers = True
        self.atfork = False   # an exit handler forks


def ending(draw, explicit, in_thread, pexit=True):
    """(ops, wait status)"""
    v = draw(st.integers(0, 200))
    ks = ["exit", "exit", "_exit", "_Exit", "sig"]
    if pexit and not explicit:
        ks.append("pexit")
    if not explicit and (pexit or not in_thread):
        ks += ["return", "return", "return"]
    k = draw(st.sampled_from(ks))
    if k == "return":
        # a thread's return value is not the status of the process it ends
        return [["RETURN", v]], 0 if in_thread else v << 8
    if k == "pexit":
        return [["EXIT", EX.pexit, v]], 0
    if k == "sig":
        sig = draw(st.sampled_from([15, 10, 1, 40, 60, 11, 6]))
        return [["SIGACTION", sig, 0, 0, 0, 1], ["MASK", 0, 1, bit(sig), 1],
                ["EXIT", draw(st.sampled_from([K["EX_raise"], EX.kill, EX.tkill])), sig]], sig
    return [["EXIT", getattr(EX, k), v]], v << 8


def fork_ops(draw, t, depth, in_thread, explicit, fk=None, thr=2):
    p = t.p
    t.nfork += 1
    pid = t.npid
    t.npid += 1
    r = p.new()
    live = t.nlive
    ops = block(draw, t, depth + 1, in_thread, 2, explicit, thr)
    # pthread_exit: not inside exit() or a handler, not with threads that stay,
    # and glibc's thread count is off in processes forked after it
    e, stt = ending(draw, explicit, in_thread, t.nlive == live and not t.atfork)
    p.rout[r] += ops + e
    t.kids[str(r)] = stt
    kind = draw(st.integers(0, 1)) if fk is None else fk
    out = [["FORK", pid, kind, r]]
    out.append(["WAITCHILD", pid])
    return out


def block(draw, t, depth, in_thread, n, explicit=False, thr=2):
    # thr: 0 no threads, 1 only joined ones, 2 any.  Threads made inside a signal handler inherit a mask that blocks the
    # exit signal, so they are out of reach by design
    p = t.p
    out = []
    for _ in range(draw(st.integers(0, n))):
        k = draw(st.integers(0, 11))
        if k <= 3 and depth < 3 and t.nfork < 7:
            f = fork_ops(draw, t, depth, in_thread, explicit, thr=thr)
            out += f
            if draw(st.integers(0, 2)) == 0:
                # overlap: wait for the child later
                w = out.pop()
                out += block(draw, t, depth + 1, in_thread, 1, explicit, thr)
                out.append(w)
        elif k <= 6 and thr and t.nthr < 7 and p.nslot < 200:
            t.nthr += 1
            r = p.new()
            s = p.slot()
            arg = p.arg(r)
            body = [["QUERY"]] + block(draw, t, depth + 1, True, 2, False, thr)
            v = draw(st.integers(0, 1000))
            body.append(draw(st.sampled_from([["RETURN", v], ["PEXIT", v]])))
            p.rout[r] += body
            hint = 0x100 if draw(st.integers(0, 9)) == 0 else 0
            out.append(create(s, arg, fn=draw(st.integers(0, 3)), hint=hint,
                              attr=draw(st.sampled_from([AT.null, AT.default, AT.stacksize])), stack=262144))
            if draw(st.booleans()):
                out += block(draw, t, depth + 1, in_thread, 1, explicit, thr)
            out.append(["JOIN", s])
        elif k == 7 and thr == 2 and t.nthr < 7:
            # a thread that stays until the process ends
            t.nthr += 1
            t.nlive += 1
            f = p.flag()
            r = p.new([["LIVE", draw(st.sampled_from([LV.nap, LV.pause, LV.read, LV.sigwait])), f]])
            out += [create(p.slot(), p.arg(r), fn=draw(st.integers(0, 3))), ["WAITLIVE", f, 1]]
        elif k == 8 and t.nsys < 2:
            t.nsys += 1
            out.append(["SYSTEM", draw(st.sampled_from(["exit 3", "true", "kill -9 $$"])), 0])
        elif k == 9:
            out.append(["NAP", draw(small_us())])
        elif k == 10 and t.handlers and depth < 3 and t.nfork < 7 and not in_thread:
            sig = draw(st.sampled_from([10, 12, 44]))
            h = p.new(fork_ops(draw, t, depth, in_thread, True, thr=0))
            out += [["SIGACTION", sig, 2, 0, 0, 1, h + 1], ["RAISE", 0, sig, 0, 0]]
        else:
            out.append(["QUERY"])
    return out


# what the client returns: what it was given, or values that look special
RETDATA = st.one_of(st.just(1), st.sets(st.sampled_from([1, 2, 4, 8, 16, 32, 64]), min_size=1).map(sum))


@st.composite
def tree_cases(draw, retdata=False):
    p = Prog()
    t = T_(p)
    t.handlers = draw(st.booleans())
    mode = draw(mode_st)
    main = p.rout[0]
    cfg = {}
    if retdata and draw(st.integers(0, 2)) == 0:
        cfg["RETDATA"] = draw(RETDATA)
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        a = [["MARK", 1]]
        if draw(st.booleans()):
            t.atfork = True
            # exit handlers run in every process, also in those forked inside a signal handler
            a += fork_ops(draw, t, 1, False, True, thr=0 if t.handlers else 1)
        main.append(["ATEXIT", p.new(a)])
    main.append(["QUERY"])
    main += block(draw, t, 0, False, 4)
    if not t.nfork:
        main += fork_ops(draw, t, 0, False, False)
    v = draw(st.integers(0, 200))
    k = draw(st.sampled_from(["return", "exit", "_exit"]))
    main.append(["RETURN", v] if k == "return" else ["EXIT", getattr(EX, k), v])
    gates = draw(noise_gates(["pre_fork", "post_fork", "init_process", "init_thread", "fini_thread", "fini_process",
                              "thread_pre_create", "thread_post_create", "real_fork", "real_pthread_create"], 3, 2000))
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        gates.append(gate("real_fork", nth=draw(st.integers(1, 4)), what=GW.FAIL))
    return p.case(mode, cfg=cfg, gates=gates, meta={"kids": t.kids, "status": v << 8})


def calls(evs, code):
    """Pairs (OP, RES, events between) of one thread for one kind of operation;
    nested operations (handlers) are kept apart by the op index."""
    out, stack = [], []
    for e in evs:
        if e.type == T.OP and e.code == code:
            stack.append((e, []))
        elif e.type == T.RES and e.code == code and stack and stack[-1][0].a[0] == e.a[0]:
            o, mid = stack.pop()
            out.append((o, e, mid))
        for o, mid in stack:
            if e is not o:
                mid.append(e)
    return out, stack


def tree(r):
    """pid -> Proc (last image per pid only matters for system children)"""
    return {pid: split_exec(evs) for pid, evs in by_pid(r).items()}


def forks(procs):
    """child pid -> (parent pid, kt, OP, RES, mid)"""
    out = {}
    for pid, ims in procs.items():
        for im in ims:
            for kt, evs in Proc(im).kt.items():
                cs, _ = calls(evs, OP.FORK)
                for o, res, mid in cs:
                    if res.a[1] > 0:
                        out[res.a[1]] = (pid, kt, o, res, mid)
    return out
