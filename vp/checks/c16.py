"""Library loads and unloads: callbacks around each, results as without monitoring."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c12 import opmap

LIBS = ["@BIN@/libv%d.so" % k for k in range(1, 7)]
ODD = [None, "", "libc.so.6", "libm.so.6", "libdl.so.2", "/nonexistent/lib.so", "libnone.so", "/etc/passwd", "@BIN@",
       "@BIN@/vapp_not", "./libv1.so", "@BIN@/./libv2.so", "lib with space.so", "%s%n", "x" * 300]
flags_st = st.one_of(
    st.sampled_from([1, 2, 2, 0x101, 0x102]),
    st.lists(st.sampled_from([1, 2, 4, 8, 0x100, 0x1000]), max_size=4, unique=True).map(sum),
    st.sampled_from([0, 0x100, 0x10000, 3, 0x103, -1]))
POINTS = ["pre_dlopen", "dlopen", "dlclose", "post_dlclose"]
CBPOINTS = ["init_process", "at_main", "start_main_init", "init_library", "pre_fork", "post_fork", "pre_dlopen", "dlopen",
            "dlclose", "post_dlclose", "begin_process_exit", "fini_process", "thread_pre_create", "thread_post_create",
            "init_thread", "fini_thread", "init_thread_support"]


@st.composite
def ops_st(draw, p, meta, depth, libs, slots):
    out = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 13))
        s = draw(st.sampled_from(slots))
        if k <= 5:
            lib = draw(st.sampled_from(libs)) if draw(st.integers(0, 2)) else draw(st.sampled_from(ODD if depth == 0 else ODD[5:9]))
            if meta["conc"] and lib not in libs:
                lib = draw(st.sampled_from(ODD[5:9]))
            fl = draw(flags_st)
            if lib in LIBS[3:] and fl & 8:
                fl = 2          # deep binding goes past every preloaded library
            if meta["conc"]:
                fl &= ~4        # an unload overtaken by another thread's may be deferred
            out.append(["DLOPEN", s, lib, fl, int(draw(st.integers(0, 4)) == 0)])
        elif k <= 8:
            out.append(["DLCLOSE", s, int(draw(st.integers(0, 4)) == 0)])
        elif k == 9:
            # closed once more than opened: stays mapped, so the error is well defined
            how = draw(st.integers(0, 3)) if not meta["conc"] else 0
            if how == 0:        # never unloaded: closing always succeeds
                out += [["DLOPEN", s, draw(st.sampled_from(["libm.so.6", "libm.so.6", "libc.so.6"])), 0x1002, 0]]
            elif how == 1:      # the program itself
                out += [["DLOPEN", s, draw(st.sampled_from([None, ""])), 2, 0]]
            else:               # kept by another library that needs it
                out += [["DLOPEN", 30, "libstdc++.so.6", 2, draw(st.integers(0, 1))], ["DLOPEN", s, "libm.so.6", draw(flags_st) & 3 or 1, 0]]
            out += [["DLCLOSE", s, int(draw(st.integers(0, 4)) == 0), 1] for _ in range(draw(st.integers(1, 3)))] + [["DLCLOSE", s, 0]]
        elif k == 10 and depth < 2 and meta["n"] < 3:
            meta["n"] += 1
            t = p.slot()
            sub = draw(ops_st(p, meta, depth + 1, libs, slots)) + [["RETURN", 1]]
            out += [create(t, p.arg(p.new(sub))), ["JOIN", t]]
        elif k == 11 and depth < 2 and meta["f"] < 2 and not meta["conc"]:
            meta["f"] += 1
            t = meta["f"]
            sub = draw(ops_st(p, meta, depth + 1, libs, slots)) + [["EXIT", draw(st.sampled_from([EX._exit, EX.exit])), 2]]
            out += [["FORK", t, 0, p.new(sub)], ["WAITCHILD", t]]
        elif k == 12 and depth == 0 and meta["h"] < 1:
            meta["h"] += 1
            sub = draw(ops_st(p, meta, 2, libs, slots))
            out += [["SIGACTION", 10, 2, 0, 0, 1, p.new(sub) + 1], ["RAISE", 0, 10]]
        elif k == 13 and depth == 0 and meta["a"] < 1 and not meta["conc"]:
            meta["a"] += 1
            out.append(["ATEXIT", p.new(draw(ops_st(p, meta, 2, libs, slots)))])
    return out


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    if draw(st.integers(0, 7)) == 0:
        # the program as a plugin with a library that is not in the global scope
        pre = draw(st.sampled_from([None, LIBS[0], LIBS[1], LIBS[3]]))
        for _ in range(draw(st.integers(1, 6))):
            p.rout[0].append(draw(st.one_of(
                st.tuples(st.just("MPI"), st.integers(0, 4), st.integers(0, 3), st.integers(0, 3), st.integers(0, 1),
                          st.integers(0, 1), st.just(0), st.integers(0, 3)).map(list),
                st.tuples(st.just("DLOPEN"), st.integers(0, 2), st.sampled_from(LIBS + ODD), st.sampled_from([1, 2, 0x102]),
                          st.integers(0, 1)).map(list),
                st.tuples(st.just("DLCLOSE"), st.integers(0, 2), st.integers(0, 1)).map(list),
                st.tuples(st.just("DLCLOSE"), st.just(31), st.integers(0, 1)).map(list))))
        p.rout[0].append(["RETURN", 3])
        return p.case("plugmpi", env={"VPRE": pre} if pre else {})
    conc = draw(st.integers(0, 3)) == 0
    meta = {"n": 0, "f": 0, "h": 0, "a": 0, "conc": conc}
    if conc:
        ts = []
        for k in (1, 2):
            t = p.slot()
            lib = LIBS[k - 1]
            r = p.new(draw(ops_st(p, meta, 2, [lib], [10 * k, 10 * k + 1])) + [["RETURN", 1]])
            p.rout[0].append(create(t, p.arg(r)))
            ts.append(t)
        p.rout[0] += [["JOIN", t] for t in ts]
    else:
        libs = draw(st.lists(st.sampled_from(LIBS), min_size=1, max_size=4, unique=True))
        p.rout[0] += draw(ops_st(p, meta, 0, libs, [0, 1, 2, 3]))
    p.rout[0].append(["RETURN", 3])
    gates = draw(noise_gates(POINTS)) if conc or draw(st.integers(0, 9)) == 0 else []
    cl = []
    if draw(st.integers(0, 3)) == 0:
        # the client itself loads and unloads inside its callbacks
        for _ in range(draw(st.integers(1, 2))):
            q = 40 + len(cl)        # handles are shared
            r = p.new([["DLOPEN", q, draw(st.sampled_from(["@BIN@/libv7.so", "/nonexistent", None])), 2, 1], ["DLCLOSE", q, 1]])
            cl.append(r)
            gates.append(gate(draw(st.sampled_from(CBPOINTS)), nth=draw(st.integers(1, 3)), phase=draw(st.integers(0, 1)),
                              what=GW.RUN | r << 8))
    return p.case(mode, gates=gates, conc=int(conc), client=cl,
                  env={"MONITOR_DEBUG": "1"} if draw(st.integers(0, 19)) == 0 else {})


class Check(BaseCheck):
    id = "C16"
    modes = ["dyn", "native", "static", "libs", "plugmpi"]
    quick = (40, 8000)
    rule = ("A case is a generated history of dlopen and dlclose calls (existing, missing, invalid, empty and null paths, any "
            "flags, libraries whose constructors and destructors load and unload others, closing too often, MPI calls whose symbols must be searched for, calls through "
            "the client's real functions, also inside callbacks) in main, threads, forked children, signal and exit handlers, "
            "run natively and monitored. Non-trivial: at least one load by the application ran to its callbacks. Distinct by "
            "program text.")
    assumptions = ["a handle is not used after its last close unless the library stays mapped",
                   "RTLD_DEEPBIND is not used on libraries that load others (it bypasses every preloaded override)",
                   "in the statically linked form, loads made by loaded libraries are not the application's and give no callback"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        n = ctx.run(case, mode="nativeplugmpi" if case["mode"] == "plugmpi" else "native", gates=[g for g in case.get("gates", []) if not g.get("what")])
        r = ctx.run(case)
        if r.timed_out or n.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == n.status, "status %#x, natively %#x" % (r.status, n.status))
        ops = opmap(case)
        pairs = self.callbacks(case, ctx, r, ops)
        fr, fn = flow(r, case, ops), flow(n, case, ops)
        if ctx.expect(set(fr) == set(fn), "different calls returned"):
            for k in sorted(fr):
                if not ctx.expect(fr[k] == fn[k], "%s: %s, natively %s" % (ops[k[0]], fr[k], fn[k])):
                    break
        if pairs:
            ctx.nontrivial = ["%s/%s" % (case["mode"], "concurrent" if case.get("conc") else "plain")] + sorted(pairs)

    def callbacks(self, case, ctx, r, ops):
        """Brackets: every call of the application has its two callbacks, nothing else has any."""
        seen = set()
        static = case["mode"] == "static"
        for pid, evs in by_pid(r).items():
            for kt, tev in Proc(evs).kt.items():
                stack = []
                plug = []       # the plugin itself, loaded by main
                nplug = 8 if "VPRE" in case.get("env", {}) else 4
                for e in tev:
                    if e.type == T.OP and e.code in (OP.DLOPEN, OP.DLCLOSE):
                        op = e.code == OP.DLOPEN
                        nested = e.a[0] < 0
                        real = static if nested else (e.a[3] if op else e.a[2]) != 0
                        stack.append({"op": op, "e": e, "real": real, "n": 0, "nested": nested, "ctor": []})
                    elif e.type == T.RES and e.code in (OP.DLOPEN, OP.DLCLOSE):
                        if not ctx.expect(stack and stack[-1]["op"] == (e.code == OP.DLOPEN), "calls do not nest"):
                            return seen
                        f = stack.pop()
                        if not f["op"] and e.a[1] == -3:
                            ctx.expect(f["n"] == 0, "a callback without a call")
                            continue
                        if f["real"]:
                            seen.add("real")
                            continue
                        what = "dlopen" if f["op"] else "dlclose"
                        if not ctx.expect(f["n"] == 4, "%s had %d of its callback events" % (what, f["n"])):
                            return seen
                        h = e.a[1]
                        if f["op"]:
                            ctx.expect(f["handle"] == h, "the callback got handle %#x, the program %#x" % (f["handle"], h))
                            seen.add("load" if h else "failed load")
                        else:
                            ctx.expect(f["ret"] == e.a[1], "the callback got result %d, the program %d" % (f["ret"], e.a[1]))
                            seen.add("unload" if e.a[1] == 0 else "failed unload")
                        if f["nested"]:
                            seen.add("nested")
                        if len(stack):
                            seen.add("depth %d" % len(stack))
                    elif e.type == T.LIBC:
                        if case["mode"] == "plugmpi" and not stack and len(plug) < nplug:
                            continue
                        if e.a[0] == 0:
                            if not ctx.expect(stack and stack[-1]["op"], "a constructor outside of dlopen"):
                                return seen
                        if stack and not stack[-1]["real"]:
                            if not ctx.expect(stack[-1]["n"] == 2, "a constructor or destructor outside of the two callbacks"):
                                return seen
                    elif e.type in (T.CB_ENTER, T.CB_LEAVE) and e.code in (CB.pre_dlopen, CB.dlopen, CB.dlclose, CB.post_dlclose):
                        if case["mode"] == "plugmpi" and not stack and len(plug) < nplug and e.code in (CB.pre_dlopen, CB.dlopen):
                            plug.append(e)
                            seen.add("plugin")
                            continue
                        if not ctx.expect(stack and not stack[-1]["real"],
                                          "%s callback without a call by the application" % CB.name(e.code)):
                            return seen
                        f = stack[-1]
                        o = f["e"]
                        want = [CB.pre_dlopen, CB.dlopen] if f["op"] else [CB.dlclose, CB.post_dlclose]
                        k = f["n"]
                        if not ctx.expect(k < 4 and e.code == want[k // 2] and e.type == (T.CB_LEAVE if k % 2 else T.CB_ENTER),
                                          "%s callback out of order" % CB.name(e.code)):
                            return seen
                        f["n"] += 1
                        if e.type == T.CB_ENTER:
                            if f["op"]:
                                ctx.expect(e.a[0] == o.a[1] and e.a[1] == o.a[2], "%s callback got path %#x flags %#x, the call %#x %#x"
                                           % (CB.name(e.code), e.a[0], e.a[1], o.a[1], o.a[2]))
                                if e.code == CB.dlopen:
                                    f["handle"] = e.a[2]
                            else:
                                ctx.expect(e.a[0] == o.a[1], "%s callback got handle %#x, the call %#x" % (CB.name(e.code), e.a[0], o.a[1]))
                                if e.code == CB.post_dlclose:
                                    f["ret"] = e.a[1]
                        raw = e.a[2] if (e.code, e.type) == (CB.pre_dlopen, T.CB_ENTER) else e.a[0] if \
                            (e.code, e.type) == (CB.dlopen, T.CB_LEAVE) else None
                        if raw is not None and not f["nested"] and isinstance(ops[o.a[0]][2], str) and "@" not in ops[o.a[0]][2]:
                            got = r.cstr(raw)
                            ctx.expect(got == ops[o.a[0]][2].encode("latin-1"), "%s callback got path %r" % (CB.name(e.code), got))
        return seen


def flow(r, case, ops):
    """(op, occurrence) -> results, and the constructors and destructors in it."""
    skip = set()
    k = 0
    for q, rout in enumerate(case["rout"]):
        for _ in range(len(rout) + 1):
            if q in case.get("client", []):
                skip.add(k)
            k += 1
    out = {}
    cnt = {}
    cur = {}
    for e in r.log:
        if e.code not in (OP.DLOPEN, OP.DLCLOSE) and e.type in (T.OP, T.RES):
            continue
        if e.type == T.OP:
            cur.setdefault(e.kt, []).append([e.a[0], []])
        elif e.type == T.LIBC and e.code != 7:
            for f in cur.get(e.kt, []):
                f[1].append((e.code, e.a[0]))
        elif e.type == T.RES and cur.get(e.kt):
            i, lib = cur[e.kt].pop()
            if i < 0 or i in skip:
                continue
            if e.code == OP.DLOPEN:
                v = [e.a[1] != 0, e.a[2], r.cstr(e.a[3]) if e.a[3] >= 0 and not case.get("client") else None] + ([] if case.get("conc") else [e.a[4]])
            else:
                v = [e.a[1], r.cstr(e.a[3]) if e.a[3] >= 0 and e.a[1] != -3 and not case.get("client") else None]
            c = cnt[i] = cnt.get(i, 0) + 1
            out[(i, c)] = (v, [] if case.get("conc") else lib)
    return out


CHECK = Check()
