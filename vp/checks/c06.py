"""Thread creation and results: the monitored program against the native one."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

VALID = [65536, 65536 + 4096, 131072, 200000, 262144, 1 << 20, 12345678, 32 << 20]
INVALID = [0, 1, 4096, 16383]


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    cfg = {}
    meta = {"threads": [], "max": 8}
    ends = ["return", "return", "pexit", "cancel", "testcancel"]
    attrs = [AT.null, AT.null, AT.default, AT.detached, AT.stack, AT.stacksize, AT.guard, AT.badsched]
    later = []
    for _ in range(draw(st.integers(1, 4))):
        if len(meta["threads"]) >= meta["max"]:
            break
        c, after, sp = thread_body(draw, p, meta, 0, ends, attrs, True)
        main.append(c)
        if draw(st.booleans()):
            later += after
        else:
            main += after
    main += later
    # attributes, values and the client's wishes for the stack
    keeps = {}
    done = p.flag()
    ndet = 0
    for op in [o for r in p.rout for o in r if o[0] == "CREATE"]:
        sp = next(t for t in meta["threads"] if t["arg"] == op[3])
        rout = op[3] & 0xffff
        arg = (draw(st.integers(0, (1 << 47) - 1)) << 16) | rout
        if arg >= 1 << 63:
            arg -= 1 << 64
        if any(t["arg"] == arg for t in meta["threads"]):
            arg = op[3]
        op[3] = sp["arg"] = arg
        if op in main and op[4] in (AT.default, AT.stacksize, AT.guard) and draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(1, 2))
            if k in keeps:
                op[4], op[5] = keeps[k]
            else:
                keeps[k] = (op[4] | k << 8, op[5])
                op[4] = keeps[k][0]
        if op[4] & 0xff != AT.stack and not op[6] and draw(st.integers(0, 1)):
            op[6] = HINT_STACK
            op[7] = draw(st.sampled_from(VALID + VALID + INVALID))
        sp["det"] = op[4] & 0xff == AT.detached or not sp["join"]
    if draw(st.integers(0, 4)) == 0:
        cfg["STACKADD"] = draw(st.sampled_from([4096, 65536, 100, 1 << 20]))
        for op in [o for r in p.rout for o in r if o[0] == "CREATE" and o[4] & 0xff == AT.stack]:
            cfg.pop("STACKADD", None)
    main += [["NAP", 200]] if draw(st.booleans()) else []
    main.append(["RETURN", 7])
    return p.case(mode, cfg=cfg, gates=draw(noise_gates(["thread_pre_create", "init_thread", "fini_thread"], 2)),
                  meta=meta)


HINT_STACK = K["HINT_STACK"]


def native_variant(case):
    """The program in which the application asks for what the client asks for."""
    add = case.get("cfg", {}).get("STACKADD", 0)
    c = dict(case)
    c["rout"] = []
    for r in case["rout"]:
        out = []
        for op in r:
            op = list(op)
            if op[0] == "CREATE":
                kind = op[4] & 0xff
                want = None
                if op[6] == HINT_STACK:
                    want = op[7] if op[7] >= 16384 else None
                elif add and op[6] == 0:
                    base = op[5] if kind in (AT.stacksize, AT.detached, AT.guard) and op[5] > 0 else 8 << 20
                    want = base + add
                if want and kind != AT.badsched:
                    op[4] = kind if kind in (AT.detached, AT.guard, AT.stacksize) else AT.stacksize
                    op[5] = want
                op[6] = op[7] = 0
            out.append(op)
        c["rout"].append(out)
    c.pop("gates", None)
    return c


def trace(r, main_pid):
    """arg (or 'main') -> application-visible events of that thread"""
    d = {}
    for kt, evs in Proc(r.log).kt.items():
        key = "main" if kt == main_pid else None
        out = []
        for e in evs:
            if e.type == T.START:
                key = e.a[0]
                out.append(("start", e.code, e.a[0], "mask %#x" % e.a[3], "detached %d" % e.a[5],
                            "guard %d" % e.a[7], "user stack %d" % e.a[6] if e.a[6] < 0 else ""))
            elif e.type == T.ENDR:
                out.append(("end", e.a[0], e.a[1]))
            elif e.type == T.CLEANUP:
                out.append(("cleanup", e.a[0]))
            elif e.type == T.KEYDTOR:
                out.append(("destructor", e.a[0]))
            elif e.type == T.RES and e.code == OP.CREATE:
                out.append(("create", e.a[5], e.a[1], e.a[2], "attr kept" if e.a[3] == e.a[4] else
                            "attr changed from %d to %d" % (e.a[3], e.a[4])))
            elif e.type == T.RES and e.code == OP.JOIN:
                out.append(("join", e.a[4], e.a[1], e.a[2], e.a[3]))
            elif e.type == T.RES and e.code in (OP.DETACH, OP.CSTATE, OP.MARK):
                out.append((OP.name(e.code), e.a[1]))
        if key is not None:
            d[key] = out
    return d


class Check(BaseCheck):
    id = "C06"
    modes = ["dyn", "static", "native"]
    quick = (35, 8000)
    rule = ("A case is a generated program creating up to eight threads with generated attributes (also reused "
            "attribute objects), arguments and results, ending by return, pthread_exit or cancellation, with cleanup "
            "handlers and thread-specific data, run monitored with a client that asks for generated stack sizes and "
            "natively with the application asking for the same sizes; the traces of every thread are compared. "
            "Non-trivial: at least one thread ran. Distinct by program text.")
    assumptions = ["the client does not ask for another size of a stack the application supplied",
                   "one attribute object is not used by two threads at the same time"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        inj = {o[3] for r in case["rout"] for o in r if o[0] == "CREATE" and o[6] & 0x100}
        loose, late = set(), set()
        under = None
        for t in case["meta"]["threads"]:
            if under is not None and t["depth"] > under:
                loose.add(t["arg"])
            else:
                under = None
                if t["det"]:
                    loose.add(t["arg"])
                    under = t["depth"]
            if t["det"] and t["attr"] != AT.detached:
                late.add(t["arg"])
        nat = native_variant(case)
        if inj:
            # what the failure injector does, natively: the creation is left out
            drop = {t["slot"] for t in case["meta"]["threads"] if t["arg"] in inj}
            nat["rout"] = [[o for o in r if not (o[0] == "CREATE" and o[3] in inj)] for r in nat["rout"]]
        a = ctx.run(case)
        b = ctx.run(nat, mode="native")
        if b.timed_out:
            return
        if a.timed_out:
            ctx.fail("the monitored program does not terminate, the native one does")
            return
        ctx.expect(a.status == b.status, "status %#x, natively %#x" % (a.status, b.status))
        self.sizes(case, ctx, Proc(a.log))
        ta, tb = trace(a, a.main_pid), trace(b, b.main_pid)
        n = 0
        for key in set(ta) | set(tb):
            x, y = ta.get(key), tb.get(key)
            if key in loose and (x is None or y is None):
                continue
            if x is None or y is None:
                ctx.fail("a thread exists only %s" % ("natively" if x is None else "when monitored"))
                continue
            for i in x:
                if i[0] == "create" and i[1] in inj:
                    ctx.expect(i[2] == 11, "a failing creation returned %d instead of 11" % i[2])
            x = [i for i in x if not (i[0] == "create" and i[1] in inj)]
            if key in loose:
                # may be overtaken by the end of the process
                x, y = x[:1], y[:1]
            if key in late:
                # detached while it starts
                x, y = ([tuple(f for f in i if not str(f).startswith("detached")) for i in z] for z in (x, y))
            n += key != "main"
            if x != y:
                d = next((i for i in range(max(len(x), len(y))) if i >= len(x) or i >= len(y) or x[i] != y[i]))
                ctx.fail("monitored %s, natively %s" % (x[d] if d < len(x) else "nothing more",
                                                        y[d] if d < len(y) else "nothing more"))
        if n:
            ctx.nontrivial = sorted({"%s/%s%s" % (case["mode"], AT.name(o[4] & 0xff),
                                                   "/resized" if o[6] == HINT_STACK or
                                                   case.get("cfg", {}).get("STACKADD") else "")
                                     for r in case["rout"] for o in r if o[0] == "CREATE"})

    def sizes(self, case, ctx, pr):
        """The system gets the size the client asked for (the application's own
        if that is invalid), and the thread has at least that much."""
        add = case.get("cfg", {}).get("STACKADD", 0)
        ops = {o[3]: o for r in case["rout"] for o in r if o[0] == "CREATE"}
        starts = pr.starts()
        for o, res, mid in pr.creates():
            op = ops.get(o.a[1])
            real = [e for e in mid if e.type == T.REAL and e.code == GP.real_pthread_create]
            old = o.a[2]
            cb = [e for e in mid if e.type == T.CB_ENTER and e.code == CB.reset_stacksize]
            if op is None or not real or not ctx.expect(len(cb) == 1, "the client was asked %d times for the stack "
                                                                      "size" % len(cb)):
                continue
            ctx.expect(cb[0].a[0] == old, "the client was told stack size %d, the application's is %d" % (
                cb[0].a[0], old))
            want = op[7] if op[6] == HINT_STACK else old + add
            if want < 16384:
                want = old
            got = real[0].a[1] if real[0].a[2] else old
            ctx.expect(got == want, "the system was asked for a stack of %d bytes, the client wanted %d" % (got, want))
            s = starts.get(o.a[1])
            if s and op[4] & 0xff != AT.stack:
                ctx.expect(s[0].a[4] + 2 * 4096 >= want, "the thread's stack has %d bytes, the client wanted %d" % (
                    s[0].a[4], want))


CHECK = Check()
