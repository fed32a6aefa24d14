"""Building blocks of the generators."""
from hypothesis import strategies as st

from .proto import *

MODES = ["dyn", "static"]

TERM_SIGS = [1, 2, 3, 5, 6, 8, 10, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31] + list(range(34, 65))
SYNC_SIGS = [4, 7, 11]            # ILL BUS SEGV
NOTERM_SIGS = [17, 18, 23, 28]    # CHLD CONT URG WINCH
STOP_SIGS = [20, 21, 22]
ALL_SIGS = [s for s in range(1, 65) if s not in (9, 19, 32, 33)]

SA_NOCLDSTOP, SA_NOCLDWAIT, SA_SIGINFO, SA_ONSTACK = 1, 2, 4, 0x08000000
SA_RESTART, SA_NODEFER, SA_RESETHAND, SA_RESTORER = 0x10000000, 0x40000000, 0x80000000, 0x04000000


def bit(sig):
    return 1 << (sig - 1)


def bits(sigs):
    m = 0
    for s in sigs:
        m |= bit(s)
    return m


class Prog:
    """A program under construction: routines, flags, slots."""

    def __init__(self):
        self.rout = [[], []]
        self.nflag = 1
        self.nslot = 0
        self.nval = 100

    def new(self, ops=()):
        self.rout.append(list(ops))
        return len(self.rout) - 1

    def flag(self):
        self.nflag += 1
        return self.nflag - 1

    def slot(self):
        self.nslot += 1
        return self.nslot - 1

    def val(self):
        self.nval += 1
        return self.nval

    def arg(self, rout):
        return (self.val() << 16) | rout

    def case(self, mode="dyn", **kw):
        c = {"mode": mode, "rout": self.rout}
        c.update({k: v for k, v in kw.items() if v})
        return c


def create(slot, arg, fn=0, attr=0, stack=0, hint=0, hstack=0):
    return ["CREATE", slot, fn, arg, attr, stack, hint, hstack]


def gate(point, nth=0, phase=0, **kw):
    g = {"point": getattr(CB, point) if hasattr(CB, point) else getattr(GP, point), "nth": nth, "phase": phase}
    g.update(kw)
    return g


mode_st = st.sampled_from(["dyn", "dyn", "static"])


@st.composite
def noise_gates(draw, points, maxn=4, max_sleep=3000):
    """Random short delays at callbacks, to perturb schedules."""
    out = []
    for _ in range(draw(st.integers(0, maxn))):
        out.append(gate(draw(st.sampled_from(points)), nth=draw(st.integers(0, 4)),
                        phase=draw(st.integers(0, 1)), sleep=draw(st.sampled_from([50, 300, 1000, max_sleep]))))
    return out


@st.composite
def small_us(draw):
    return draw(st.sampled_from([0, 0, 50, 200, 800]))


CANCEL_STYLES = [LV.pause, LV.sleep, LV.cond, LV.read, LV.poll, LV.sem, K["LV_async"],
                 LV.sigwait, LV.sigwaitinfo]


class Spec(dict):
    __getattr__ = dict.__getitem__


def thread_body(draw, p, meta, depth, ends, attrs, want_nested, ignore=0):
    """Generates a thread routine (and nested ones); returns (create op, after-ops, spec).
    after-ops are what the creator does about it (cancel, join)."""
    end = draw(st.sampled_from(ends))
    attr = draw(st.sampled_from(attrs))
    after = []
    cl = draw(st.integers(0, 3))
    val = draw(st.integers(1, 1 << 40))
    r = p.new()
    body = p.rout[r]
    arg = p.arg(r)
    slot = p.slot()
    spec = {"arg": arg, "end": end, "val": val, "attr": attr, "slot": slot, "depth": depth, "cancel": 0,
            "cleanup": 0, "key": 0}
    meta["threads"].append(spec)
    if end in ("cancel", "testcancel"):
        # cancellation takes effect only where the routine ends
        body.append(["CSTATE", 1])
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 4))
        if k == 0:
            body.append(["QUERY"])
        elif k == 1:
            body.append(["NAP", draw(small_us())])
        elif k == 2:
            body.append(["KEYSET", 1000 + slot])
            spec["key"] = 1000 + slot
        elif k == 3:
            body.append(["MARK", slot])
        elif k == 4 and want_nested and depth < 2 and len(meta["threads"]) < meta["max"]:
            c, a, sp = thread_body(draw, p, meta, depth + 1, ends, attrs, want_nested, ignore)
            body.append(c)
            body += a
    tail = []
    if end == "return":
        tail = [["RETURN", val]]
    elif end == "pexit":
        tail = [["PEXIT", val]]
    elif end == "cancel":
        f = p.flag()
        style = draw(st.sampled_from(CANCEL_STYLES))
        tail = [["CSTATE", 0], ["LIVE", style, f]]
        if draw(st.integers(0, 3)):
            after.append(["WAITLIVE", f, 1])
        elif draw(st.booleans()):
            after.append(["NAP", draw(small_us())])
        after.append(["CANCEL", slot])
        spec["cancel"] = 1
    elif end == "testcancel":
        f = p.flag()
        tail = [["WAITF", f, 1], ["CSTATE", 0], ["TESTCANCEL"], ["RETURN", val]]
        after += [["CANCEL", slot], ["SETF", f]]
        spec["cancel"] = 1
    if cl == 0:
        inner = p.new(tail)
        body.append(["CLEANUP", inner, 50 + slot, 1])
        if end == "return":
            body.append(["RETURN", val])
        spec["cleanup"] = 50 + slot
    else:
        body += tail
    hint = 0
    if attr == AT.badsched:
        spec["fail"] = 1
    elif draw(st.integers(0, 11)) == 0:
        hint = 0x100
        spec["fail"] = 11
    else:
        spec["fail"] = 0
    stack = draw(st.sampled_from([0, 65536, 262144]))
    op = create(slot, arg, fn=draw(st.integers(0, 3)), attr=attr, stack=stack, hint=hint)
    if attr == AT.detached:
        spec["join"] = 0
    elif draw(st.integers(0, 5)) == 0 and end in ("return", "pexit"):
        after.append(["DETACH", slot])
        spec["join"] = 0
    else:
        after.append(["JOIN", slot])
        spec["join"] = 1
    if spec["fail"]:
        after = [["JOIN", slot]]
    return op, after, spec
