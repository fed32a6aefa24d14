"""Signal masks: a model and the native program."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

M64 = (1 << 64) - 1
SHOOT = bit(42)
HANDSOFF = bits([9, 19, 32, 33])

sig_st = st.one_of(st.sampled_from(ALL_SIGS), st.sampled_from([42, 42, 10, 12, 41, 43, 1, 64, 11, 17]))
set_st = st.one_of(
    st.lists(st.one_of(sig_st, st.sampled_from([9, 19, 32, 33])), max_size=6).map(bits),
    st.sampled_from([0, M64, SHOOT, M64 & ~SHOOT, M64 & ~bit(42) & ~bit(10)]),
    st.integers(0, M64))
how_st = st.sampled_from([0, 0, 1, 1, 2, 2, 2, 0, 1, 2, 3, -1, 77])


@st.composite
def mask_op(draw):
    return ["MASK", draw(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3])), draw(how_st), draw(set_st),
            draw(st.sampled_from([3, 3, 3, 1, 2, 0]))]


@st.composite
def body_st(draw, p, meta, depth, reg):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 9))
        if k == 0 and reg:
            out.append(["MSIGACTION", draw(st.one_of(sig_st, sig_st, st.integers(-1, 66))),
                        draw(st.sampled_from([0, 1, -77])), 0, draw(st.sampled_from([0, M64])), draw(st.integers(0, 1))])
        elif k == 1 and reg:
            out.append(["SIGACTION", draw(sig_st), draw(st.sampled_from([0, 1, 2, 4])), 0, draw(set_st), 1])
        elif k == 2 and depth < 3 and meta["n"] < 6:
            meta["n"] += 1
            s = p.slot()
            sub = draw(body_st(p, meta, depth + 1, reg)) + [["RETURN", 1]]
            attr = draw(st.sampled_from([0, 1, AT.stack]))
            out += [create(s, p.arg(p.new(sub)), attr=attr, hint=draw(st.sampled_from([0, 0, 0, 1]))), ["JOIN", s]]
        elif k == 3 and depth < 3 and meta["f"] < 3:
            meta["f"] += 1
            s = meta["f"]
            sub = draw(body_st(p, meta, depth + 1, reg)) + [["EXIT", EX._exit, 2]]
            out += [["FORK", s, 0, p.new(sub)], ["WAITCHILD", s]]
        elif k == 4 and depth == 0 and reg and meta["n"] < 6:
            # several at once: no registrations meanwhile
            ss = []
            for _ in range(draw(st.integers(2, 3))):
                meta["n"] += 1
                s = p.slot()
                ss.append(s)
                out.append(create(s, p.arg(p.new(draw(body_st(p, meta, 3, False)) + [["RETURN", 1]]))))
                out.append(draw(mask_op()))
            out += [["JOIN", s] for s in ss]
        else:
            out.append(draw(mask_op()))
    return out


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    meta = {"n": 0, "f": 0}
    p.rout[0] += draw(body_st(p, meta, 0, True))
    for _ in range(draw(st.integers(1, 3))):
        p.rout[0].append(draw(mask_op()))
    p.rout[0].append(["RETURN", 3])
    cfg = {}
    if draw(st.integers(0, 3)) == 0:
        cfg = {"SIGACT_INLIB": bits(draw(st.lists(sig_st, min_size=1, max_size=3))),
               "SIGACT_USEACT": draw(st.integers(0, 1)), "SIGACT_WHEN": draw(st.integers(0, 4))}
    env = {}
    if draw(st.integers(0, 7)) == 0:
        env = {"MONITOR_DEBUG": "1"}
    return p.case(mode, cfg=cfg, env=env, inhmask=draw(st.one_of(st.just(0), st.just(0), set_st)))


@st.composite
def handler_cases(draw):
    """Masks inside the application's handlers: sa_mask may not hold back the client's signals either."""
    p = Prog()
    mode = draw(mode_st)
    pool = draw(st.permutations([s for s in ALL_SIGS if s not in STOP_SIGS + [18, 42]]))
    nc = draw(st.integers(0, 4))
    cl, hs, rest = list(pool[:nc]), list(pool[nc:nc + 3]), list(pool[nc + 3:])
    anyset = st.one_of(st.lists(st.sampled_from(cl + hs + rest[:6] + [42, 9, 19]), max_size=8).map(bits), st.sampled_from([0, M64, M64]), set_st)
    plain = lambda: ["MASK", draw(st.integers(0, 1)), draw(st.integers(0, 2)), draw(anyset), draw(st.sampled_from([3, 3, 1, 2]))]
    ops = []
    late = [c for c in cl if draw(st.integers(0, 4)) == 0]
    reg = lambda c: ["MSIGACTION", c, 0, 0, draw(st.sampled_from([0, M64])), draw(st.integers(0, 1))]
    ops += [reg(c) for c in cl if c not in late]
    for i in range(draw(st.integers(1, 4))):
        h = draw(st.sampled_from(hs))
        body = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 3))
            ok = [c for c in cl if c not in late]
            if k and ok:
                body.append(["RAISE", draw(st.sampled_from([0, 1, 4])), draw(st.sampled_from(ok)), 1])
            else:
                body.append(plain())
        if draw(st.integers(0, 2)) == 0:
            ops.append(plain())
        hk = draw(st.sampled_from([2, 4]))
        ops.append(["SIGACTION", h, hk, draw(st.sampled_from([0, 0, SA_NODEFER, SA_RESTART])) | (SA_SIGINFO if hk == 4 else 0), draw(anyset), 1,
                    p.new(body) + 1 if body else 0])
        if late and draw(st.booleans()):
            ops.append(reg(late.pop()))
        ops += [["MASK", 0, 1, bit(h), 3], ["RAISE", draw(st.sampled_from([0, 1, 4])), h, 1]]
    ops.append(plain())
    if draw(st.integers(0, 3)) == 0:
        s = p.slot()
        p.rout[0] += [create(s, p.arg(p.new(ops + [["RETURN", 1]]))), ["JOIN", s]]
    else:
        p.rout[0] += ops
    p.rout[0].append(["RETURN", 3])
    return p.case(mode, meta={"client": cl}, env={"MONITOR_DEBUG": "1"} if draw(st.integers(0, 15)) == 0 else {})


def apply(m, how, s, k):
    s &= ~HANDSOFF
    if how == 0:
        return m | (s & ~k)
    if how == 1:
        return m & ~(s & ~k)
    return (m & k) | (s & ~k)


class Check(BaseCheck):
    id = "C12"
    modes = ["dyn", "native", "static"]
    quick = (45, 8000)
    rule = ("A case is a generated sequence of sigprocmask and pthread_sigmask calls (all how values and invalid ones, "
            "any set, with and without set and old set, the real versions) in main, nested and concurrent threads and "
            "forked children and inside handlers with any sa_mask, with handlers registered by the client in between, run natively, monitored and in a "
            "reference model. Non-trivial: a mask call changed the mask. Distinct by program text.")
    assumptions = ["registrations by the client are not concurrent with mask calls"]

    def strategy(self, tier):
        return st.one_of(cases(), cases(), handler_cases())

    def judge(self, case, ctx):
        cl = case.get("meta", {}).get("client", [])
        # (natively, what the client takes does not happen)
        n = ctx.run(case, mode="native", rout=[[["NAP", 0] if o[0] == "RAISE" and o[2] in cl else o for o in q] for q in case["rout"]])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ops = opmap(case)
        K0 = SHOOT | (case.get("cfg", {}).get("SIGACT_INLIB", 0))
        # what is reserved may differ from process to process
        kmap = {r.main_pid: K0}
        every = K0
        changed = 0
        cur = {r.main_pid: case.get("inhmask", 0) & ~HANDSOFF}          # kt -> mask known
        forked = {}       # operation -> mask
        pend = {}         # arg -> creator's mask
        stack = {}        # kt -> masks interrupted by handlers
        inst = {}         # signal -> (sa_mask, flags, reserved then)
        await_ = {}       # kt -> the client's signal being raised
        for e in r.log:
            kt = e.kt
            a = [x & M64 for x in e.a]
            if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0:
                par = e.a[3]
                kmap[e.pid] = kmap.get(par, K0)
                cur[kt] = forked.get(e.a[0], 0)
            elif e.type == T.OP and e.code == OP.FORK:
                forked[e.a[0]] = cur.get(kt, 0)
            K = kmap.setdefault(e.pid, K0)
            if e.type == T.RES and e.code == OP.MSIGACTION:
                sig = e.a[2]
                ok = 1 <= sig <= 64 and not bit(sig) & HANDSOFF
                ctx.expect(e.a[1] == (0 if ok else -1), "registering signal %d returns %d" % (sig, e.a[1]))
                if ok:
                    kmap[e.pid] = K | bit(sig)
                    every |= bit(sig)
            elif e.type == T.RES and e.code == OP.SIGACTION and "client" in case.get("meta", {}):
                o = ops[e.a[0]]
                inst[o[1]] = (o[4], o[3], K)
            elif e.type == T.HANDLER and e.a[0] in inst:
                prev = cur.get(kt, 0)
                sm, fl, k = inst[e.a[0]]
                want = prev | sm & ~k & ~bits([9, 19]) | (0 if fl & SA_NODEFER else bit(e.a[0]))
                # (the library itself holds back the exit signal in handlers; one registered after the installation was reserved too late)
                skip = SHOOT | (kmap[e.pid] & ~k)
                if not ctx.expect((a[3] ^ want) & ~skip == 0, "mask %#x in the handler of %d, expected %#x (sa_mask %#x, reserved %#x)" % (
                        a[3], e.a[0], want, sm, k)):
                    return
                stack.setdefault(kt, []).append(prev)
                cur[kt] = a[3]
                changed += 1
            elif e.type == T.HLEAVE and stack.get(kt):
                cur[kt] = stack[kt].pop()
            elif e.type == T.OP and e.code == OP.RAISE and ops[e.a[0]][2] in cl and not cur.get(kt, 0) & bit(ops[e.a[0]][2]):
                await_[kt] = ops[e.a[0]][2]
            elif e.type == T.CLIENTSIG:
                if await_.get(kt) == e.a[0]:
                    await_.pop(kt)
            elif e.type == T.RES and e.code == OP.RAISE and ops[e.a[0]][2] in cl:
                ctx.expect(kt not in await_, "the client's signal %d is held back by the application" % ops[e.a[0]][2])
                await_.pop(kt, None)
            elif e.type == T.OP and e.code == OP.CREATE:
                pend[e.a[1]] = cur.get(kt, 0)
            elif e.type == T.START:
                m = pend.get(e.a[0], None)
                ctx.expect(m is not None and a[3] == m, "a new thread has mask %#x, its creator %#x" % (a[3], m or 0))
                cur[kt] = a[3]
            elif e.type == T.RES and e.code == OP.MASK:
                o = ops[e.a[0]]
                fn, how, s, mode = o[1:5]
                if kt in cur:
                    ctx.expect(a[4] == cur[kt], "mask %#x before the call, %#x expected" % (a[4], cur[kt]))
                want = a[4]
                if mode & 1 and how in (0, 1, 2):
                    want = apply(a[4], how, s, 0 if fn >= 2 else K)
                ctx.expect(a[5] == want, "mask(%d) of %#x with %#x (reserved %#x) gives %#x, expected %#x" % (
                    how, a[4], s, K, a[5], want))
                err = mode & 1 and how not in (0, 1, 2)
                exp = (-1 if fn in (0, 2) else 22) if err else 0
                ctx.expect(e.a[1] == exp, "returns %d, expected %d" % (e.a[1], exp))
                if err and fn in (0, 2):
                    ctx.expect(e.a[2] == 22, "errno %d" % e.a[2])
                if mode & 2 and not err:
                    ctx.expect(a[3] == a[4], "old mask reported %#x, was %#x" % (a[3], a[4]))
                ctx.expect(a[6] == s, "the caller's set was changed")
                if a[4] != a[5]:
                    changed += 1
                cur[kt] = a[5]
        # native, over the signals that never were reserved
        fr, fn = flow(r, every, ops), flow(n, every, ops)
        ctx.expect(fr == fn, "results differ from native: %s" % next(
            ("%s / %s" % (x, y) for x, y in zip(fr, fn) if x != y), "count"))
        if changed:
            ctx.nontrivial = ["%s/%s" % (case["mode"], "threads" if any(o[0] == "CREATE" for q in case["rout"] for o in q)
                                         else "single")]
            if any(o[0] == "MSIGACTION" for q in case["rout"] for o in q):
                ctx.nontrivial.append("registrations")


def opmap(case):
    d = {}
    n = 0
    for q in case["rout"]:
        for o in q:
            d[n] = o
            n += 1
        n += 1
    return d


def flow(r, skip, ops):
    """Per operation: the same program runs each operation once."""
    out = []
    for e in r.log:
        if e.type == T.RES and e.code == OP.MASK:
            out.append((e.a[0], e.a[1], e.a[2], e.a[3] & M64 & ~skip, e.a[4] & M64 & ~skip, e.a[5] & M64 & ~skip))
        elif e.type == T.START:
            out.append((-1, e.a[0], e.a[3] & M64 & ~skip))
    return sorted(out)


CHECK = Check()
