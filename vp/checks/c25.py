"""Texts of signal sets and lists."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap

ITEM = 15
NSIG = 65


def items(sigs):
    """Runs of consecutive signals, in the order of the list."""
    out = []
    for s in sigs:
        if out and out[-1][1] + 1 == s:
            out[-1][1] = s
        else:
            out.append([s, s])
    return out


def model(sigs, size):
    """(return value, text) for a list of signals; None: the buffer is not touched."""
    if size < 1:
        return -1, None
    if size < ITEM:
        return -1, ""
    if sigs is None:
        return 0, " (null)"
    parts = []
    for a, b in items(sigs):
        if sum(map(len, parts)) + ITEM > size:
            return -1, "".join(parts[:-1]) + " and more"
        parts.append(" %d," % a if a == b else " %d-%d," % (a, b))
    return len(sigs), "".join(parts)[:-1]


sizes = st.one_of(st.integers(0, 200), st.integers(0, 600), st.integers(12, 40), st.sampled_from([-1, -15, -1000, 0, 1, 14, 15, 16, 500]))
sets = st.one_of(
    st.integers(0, 2 ** 64 - 1),
    st.sampled_from([0, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63, 1, 3, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555]),
    st.lists(st.integers(0, 63), max_size=5).map(lambda l: sum(1 << i for i in set(l))),
    st.tuples(st.integers(0, 63), st.integers(0, 63)).map(lambda t: sum(1 << i for i in range(min(t), max(t) + 1))),
    st.lists(st.tuples(st.integers(0, 63), st.integers(1, 9)), max_size=5).map(
        lambda l: sum(1 << i for i in {k for a, n in l for k in range(a, min(64, a + n))})))
lists = st.one_of(
    st.lists(st.integers(1, 64), max_size=80),
    st.lists(st.tuples(st.integers(1, 64), st.integers(1, 9)), max_size=12).map(
        lambda l: [k for a, n in l for k in range(a, min(65, a + n))]),
    st.lists(st.integers(1, 64), max_size=6, unique=True).map(sorted),
    sets.map(lambda m: [i + 1 for i in range(64) if m >> i & 1]))


@st.composite
def cases(draw):
    p = Prog()
    n = draw(st.integers(1, 12))
    for _ in range(n):
        size = draw(sizes)
        null = int(draw(st.integers(0, 19)) == 0)
        nbuf = int(draw(st.integers(0, 19)) == 0)
        if draw(st.booleans()):
            m = draw(sets)
            if draw(st.integers(0, 2)) == 0 and not null:
                # just about the size of the text
                size = len(model([i + 1 for i in range(64) if m >> i & 1], 10000)[1]) + draw(st.integers(-3, 18))
            p.rout[0].append(["SIGSTR", size, m, null, nbuf])
        else:
            l = draw(lists)
            if draw(st.integers(0, 2)) == 0 and not null:
                size = len(model(l, 10000)[1]) + draw(st.integers(-3, 18))
            p.rout[0].append(["LISTSTR", size, {"ints": l}, len(l), null, nbuf])
    p.rout[0].append(["RETURN", 3])
    return p.case(draw(mode_st))


class Check(BaseCheck):
    id = "C25"
    modes = ["dyn", "static"]
    quick = (30, 12000)
    rule = ("A case is up to twelve descriptions of generated sets and lists (random, runs, alternating, empty, full) into "
            "buffers of generated sizes (any up to 600, around the length of the text, negative) which end at an inaccessible page. "
            "Non-trivial: a description that was cut short, or one of more than two items. Distinct by program text.")
    assumptions = ["lists hold signal numbers"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        r = ctx.run(case)
        if not ctx.expect(not r.timed_out and r.status == 0x300, "status %#x%s" % (
                r.status, " (memory outside of the buffer was touched)" if r.status & 0x7f == 11 else "")):
            return
        ops = opmap(case)
        n = 0
        tags = set()
        for e in r.log:
            if e.type != T.RES or e.code not in (OP.SIGSTR, OP.LISTSTR):
                continue
            n += 1
            o = ops[e.a[0]]
            if o[0] == "SIGSTR":
                size, null, nbuf = o[1], o[3], o[4]
                sigs = [i + 1 for i in range(64) if o[2] >> i & 1]
            else:
                size, null, nbuf = o[1], o[4], o[5]
                sigs = o[2]["ints"]
            ret, text = model(None if null else sigs, size)
            raw = bytes(r.raw[e.a[2]:e.a[2] + max(size, 0)])
            if nbuf:
                ret, text = -1, None
            got = None if raw == b"\xa5" * len(raw) else raw.split(b"\0")[0].decode("latin1") if b"\0" in raw else "(not terminated) %r" % raw
            what = "%s of %s, size %d" % (o[0], "null" if null else sigs, size)
            ctx.expect(e.a[1] == ret, "%s: returned %d, expected %d" % (what, e.a[1], ret))
            ctx.expect(got == text, "%s: %r, expected %r" % (what, got, text))
            ctx.expect(e.a[4] == 0, "%s: bytes before the buffer were changed" % what)
            if text is not None and not null and size >= ITEM:
                if ret == -1:
                    tags.add("cut short")
                elif len(items(sigs)) > 2:
                    tags.add("complete")
        ctx.expect(n == sum(1 for o in case["rout"][0] if o[0] in ("SIGSTR", "LISTSTR")), "%d descriptions" % n)
        ctx.nontrivial = sorted(tags)


CHECK = Check()
