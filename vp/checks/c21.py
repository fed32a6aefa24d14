"""The choice of the exit signal, over values of the variable, configurations and states."""
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from . import c03

RTMIN, RTMAX = 34, 64
VALID = [s for s in range(1, 65) if s not in (9, 19, 32, 33)]
CHOOSABLE = [s for s in VALID if s not in STOP_SIGS]
ORDER = list(range(RTMIN + 8, RTMAX - 7)) + [12, 10, 30, 23, 13]
NAMES = {10: "SIGUSR1", 12: "SIGUSR2", 14: "SIGALRM", 27: "SIGPROF", 13: "SIGPIPE", 30: "SIGPWR", 23: "SIGURG", 15: "SIGTERM"}
VAR = "MONITOR_SHOOTDOWN_SIGNAL"


def default(client, conf):
    if conf in CHOOSABLE:
        return conf
    return next((s for s in ORDER if s not in client), 28)


def outcomes(val, client, conf):
    """The signals that the value may lead to."""
    d = default(client, conf)
    if val is None:
        return {d}
    m = re.match(r"[ \t\n\v\f\r]*([+-]?[0-9]+)(.*)$", val, re.S)
    if not m:
        return {d}
    n = int(m.group(1))
    if not -2 ** 31 <= n < 2 ** 31:
        # beyond what a number conversion promises
        return {d} | ({n & 0xffffffff} & set(CHOOSABLE))
    if n not in CHOOSABLE:
        return {d}
    if m.group(2):
        return {d, n}               # a number followed by other text
    return {n}


@st.composite
def configs(draw):
    client = draw(st.lists(st.sampled_from(ORDER + [14, 27, 40, 34, 64, 28, 29, 5]), min_size=0, max_size=6, unique=True))
    if draw(st.integers(0, 2)) == 0:
        client = ORDER[:draw(st.integers(1, len(ORDER)))] + [c for c in client if c not in ORDER and c != 28]
    conf = draw(st.sampled_from([0, 0, 0] + ORDER + [1, 9, 14, 19, 20, 27, 33, 34, 64, 65, 100]))
    return client, conf


def opts(client, conf):
    o = []
    if client:
        o.append("--enable-client-signals=" + ",".join(
            NAMES[s] if s in NAMES and s % 2 else str(s) for s in client))
    if conf:
        o.append("--enable-shootdown-signal=%s" % (NAMES.get(conf, conf) if conf % 2 == 0 else conf))
    return o


VARIANTS = [[[], 0]]


values = st.one_of(
    st.integers(0, 70).map(str), st.integers(0, 70).map(str), st.sampled_from(CHOOSABLE).map(str),
    st.sampled_from([9, 19, 20, 21, 22, 32, 33, 65, 0, -1, -42, 127, 128, 1024, 2 ** 31 - 1, -2 ** 31]).map(str),
    st.tuples(st.sampled_from(["", " ", "\t", "+", "0", "00", " +0", "\n"]), st.integers(0, 66)).map(lambda t: t[0] + str(t[1])),
    st.tuples(st.integers(0, 66), st.sampled_from([" ", "x", "abc", ",10", ".5", "-", "\n"])).map(lambda t: str(t[0]) + t[1]),
    st.sampled_from(["", " ", "SIGUSR1", "USR2", "x10", "-", "+", "--10", "- 10", "0x2a", "ten", "%d", "1e1"]),
    st.integers(2 ** 31, 2 ** 66).map(str),
    st.tuples(st.sampled_from([1, 2, -1]), st.integers(1, 66)).map(lambda t: str(t[0] * 2 ** 32 + t[1])),
    st.text(alphabet="0123456789+- xabc\t", max_size=8))


@st.composite
def cases(draw):
    c = draw(c03.cases())
    vi = draw(st.integers(0, len(VARIANTS) - 1))
    client, conf = VARIANTS[vi]
    val = draw(st.one_of(values, values, values, st.none()))
    if client or conf:
        c["mode"] = "dyn"
        c["lib"] = opts(client, conf)
        if draw(st.booleans()):
            val = None
    if val is not None:
        c["env"] = {VAR: val}
    c["conf"] = [client, conf]
    out = sorted(outcomes(val, client, conf))
    sig = out[0]
    main = c["rout"][0]
    # (an ignored one: the exits of c03 are by signals that must be fatal)
    fatal = {e[1] & 0x7f for e in c["meta"]["exits"]}
    head = [["SHOOTSIG", draw(st.integers(0, 1))]]
    for s in draw(st.lists(st.sampled_from([sig, sig, 42, 10, 12, 28]), max_size=2, unique=True)):
        if s in fatal or s not in CHOOSABLE:
            continue
        k = draw(st.integers(0, 3))
        if k >= 2:
            r = len(c["rout"])
            c["rout"].append([["ERRNO", 0]])
            head.append(["SIGACTION", s, k, draw(st.sampled_from([0, SA_RESTART, SA_RESETHAND, SA_NODEFER])), 0, 1, r + 1])
            if draw(st.booleans()):
                head.append(["RAISE", draw(st.sampled_from([0, 1])), s])
        else:
            head.append(["SIGACTION", s, k, 0, 0, 1])
            if k == 1 and draw(st.booleans()):
                head.append(["RAISE", 0, s])
    if draw(st.integers(0, 3)) == 0:
        head.append(["MSIGACTION", draw(st.sampled_from([34, 37, 14, 27])), 0, 0, 0, 0])
        if head[-1][1] in fatal or head[-1][1] == sig:
            head.pop()
    if draw(st.integers(0, 3)) == 0:
        head.append(["SHOOTSIG", draw(st.integers(0, 1))])
    c["rout"][0] = head + main
    if draw(st.integers(0, 5)) == 0:
        c["inhign"] = bits([s for s in draw(st.lists(st.sampled_from([sig, 42, 12, 13]), max_size=2)) if s not in fatal])
    return c


class Check(BaseCheck):
    id = "C21"
    modes = ["dyn", "static"]
    quick = (60, 6000)
    rule = ("A case is a program of C03 (threads blocked in many ways, ended by any route) run with a generated value of the "
            "variable, with a library configured with generated client signals and exit signal, and with generated handling of the chosen signal. "
            "Non-trivial: the variable or the configuration changed or could have changed the choice, and a thread was live at exit. "
            "Distinct by program text and value.")
    assumptions = c03.Check.assumptions + [
        "a number followed by other text, or beyond the range of int, may be taken or refused",
        "fewer than all the candidates are client signals"]

    def strategy(self, tier):
        return cases()

    def variants(self):
        import hypothesis
        rnd = random.Random("C21/%s/%s" % (self.tier, os.environ.get("VERIF_SEED", "1")))
        n = 5 if self.tier == "quick" else 24
        out = []

        @hypothesis.seed(rnd.getrandbits(32))
        @hypothesis.settings(max_examples=4 * n, database=None, deadline=None, phases=[hypothesis.Phase.generate])
        @hypothesis.given(configs())
        def collect(v):
            if (v[0] or v[1]) and [list(v[0]), v[1]] not in out:
                out.append([list(v[0]), v[1]])
        collect()
        rnd.shuffle(out)
        # always one with client signals where the default would be
        return [[ORDER[:3] + [14], 0]] + out[:n - 1]

    def prepare(self, build):
        VARIANTS[:] = [[[], 0], [[], 0], [[], 0]] + self.variants()
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda v: build.variant(opts(*v)) if v[0] or v[1] else None, VARIANTS))

    def judge(self, case, ctx):
        client, conf = case["conf"]
        val = case.get("env", {}).get(VAR)
        out = outcomes(val, client, conf)
        c03.CHECK.judge(case, ctx)
        r = ctx.results[-1]
        nt = list(ctx.nontrivial or [])
        ctx.nontrivial = []
        if ctx.bad:
            return
        ctx.expect(b"monitor error" not in bytes(r.out or b""), "error output: %r" % r.out[-200:])
        held = {9, 19, 32, 33} | set(c for c in client if c in VALID)
        probes = [e for e in r.log if e.type == T.RES and e.code == OP.SHOOTSIG]
        ms = set()
        chosen = None
        for e in r.log:
            if e.type == T.RES and e.code == OP.MSIGACTION and e.a[1] == 0:
                ms.add(e.a[2])
            if e.type == T.RES and e.code == OP.SHOOTSIG:
                free = {s for s in range(1, 65) if e.a[1] & bit(s)}
                ok = [s for s in out if free == held | ms | {s}]
                if not ctx.expect(ok, "%s=%r, client signals %s, configured %d: the application cannot block %s; expected one of %s and %s" % (
                        VAR, val, client, conf, sorted(free - {9, 19, 32, 33}), sorted(out), sorted((held | ms) - {9, 19, 32, 33}))):
                    return
                chosen = ok
        if chosen is None:
            return
        # handlers for the chosen signal still run
        n = {}
        for o in case["rout"][0]:
            if o[0] == "SIGACTION" and len(o) > 6 and o[2] in (2, 3):
                n.setdefault(o[1], [0, 0])
                last = o[1]
            elif o[0] == "RAISE" and n and o[2] in n:
                n[o[2]][0] += 1
        for e in r.log:
            if e.type == T.HANDLER and e.a[0] in n:
                n[e.a[0]][1] += 1
        for s, (w, g) in n.items():
            ctx.expect(w == g, "the application's handler for signal %d ran %d times, expected %d" % (s, g, w))
        if nt and (val is not None or client or conf):
            ctx.nontrivial = ["signal %d" % s for s in sorted(out)] + nt[:1]


CHECK = Check()
