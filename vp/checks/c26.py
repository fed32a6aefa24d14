"""Whole programs, native against monitored in both link modes."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *
from .c09 import dump_of
from .c12 import opmap, M64

KEEP = bit(42)
CMDS = ["exit 3", "true", "echo one; echo two", "kill -9 $$", "kill -13 $$; exit 2", "nosuchcommand_x 2>/dev/null", "exit 255", "(exit 4) | cat; echo x",
        "@BIN@/vdump a 'b c' ''", "exec @BIN@/vdump q", "VDUMP_STATUS=7 @BIN@/vdump; exit $?", ":", "cat </dev/null", "sh -c 'exit 9'", "echo $V1"]
POPENS = ["echo out", "exit 5", "printf 'a b'", "echo $V1; exit 1", "kill -9 $$"]
LIBS = ["@BIN@/libv%d.so" % k for k in (1, 2, 3, 4, 5)] + ["/nonexistent.so", None, "libm.so.6"]
SIGS = [10, 12, 1, 2, 15, 14, 23, 28, 29, 36, 40, 50, 64]
QUIET = [17, 18, 23, 28]
SELF = [0, 1, 4, 6]


class G:
    def __init__(self, draw):
        self.draw = draw
        self.p = Prog()
        self.n = 0
        self.npid = self.nthr = self.nsys = self.nax = 0
        pool = draw(st.lists(st.sampled_from(SIGS), min_size=2, max_size=5, unique=True))
        k = draw(st.integers(0, len(pool)))
        self.maskable, self.free = pool[:k], pool[k:]       # only the former are ever blocked
        self.det = False        # a detached thread may still be there
        self.tags = set()

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def num(self, a, b):
        return self.draw(st.integers(a, b))

    def set_(self):
        return bits(self.draw(st.lists(st.sampled_from(self.maskable), max_size=3))) if self.maskable else 0

    def handler(self, sig):
        k = self.pick([2, 3, 4, 5])
        fl = sum(self.draw(st.lists(st.sampled_from([SA_RESTART, SA_NODEFER]), max_size=2, unique=True)))
        if k >= 4:
            fl |= SA_SIGINFO
        body = []
        for _ in range(self.num(0, 2)):
            j = self.num(0, 4)
            if j == 0:
                body.append(["PENDING"])
            elif j == 1:
                body.append(["MASK", self.num(0, 1), self.num(0, 1), self.set_(), 3])
            elif j == 2:
                body.append(["SIGACTION", sig, 0, 0, 0, 2])
            elif j == 3:
                body.append(["WRITE", "h"])
            else:
                body.append(["ERRNO", 7])
        return ["SIGACTION", sig, k, fl, self.set_(), self.pick([1, 3]), self.p.new(body) + 1 if body else 0]

    def setup(self):
        """Every signal that is ever blocked has a handler from the start."""
        return [self.handler(s) for s in self.maskable]

    def local(self, n):
        """Operations that concern only the calling thread."""
        out = []
        for _ in range(self.num(0, n)):
            j = self.num(0, 6)
            if j <= 1:
                out.append(["MASK", self.num(0, 1), self.num(0, 2), self.set_(), 3])
            elif j == 2:
                out.append(["KEYSET", self.num(1, 1000)])
            elif j == 3:
                out.append(["CLEANUP", self.p.new([["NAP", self.pick([0, 50])]]), self.num(1, 100), self.num(0, 1)])
            elif j == 4:
                out.append(["NAP", self.pick([0, 50, 300])])
            elif j == 5:
                out.append(["CSTATE", self.num(0, 1)])
            else:
                out.append(["PENDING"])
        return out

    def signal_ops(self, mt, hd):
        kinds = SELF if mt or self.det else SELF + [2, 3]
        j = self.num(0, 5)
        self.tags.add("signals")
        if j == 0 and self.free and not hd:
            s = self.pick(self.free)
            h = self.handler(s)
            out = [h, ["RAISE", self.pick(kinds), s, self.num(1, 99)]]
            k = self.num(0, 3)
            if k == 0:
                out += [["SIGACTION", s, 1, 0, 0, 3], ["RAISE", self.pick(kinds), s, 5]]
            elif k == 1:
                out += [["SIGNAL", s, self.pick([1, 2, 3])], ["RAISE", self.pick(kinds), s, 5]]
            elif k == 2:
                out += [["SIGACTION", s, 0, 0, 0, 3]]
                if s in QUIET:
                    out += [["RAISE", self.pick(kinds), s, 5]]
            return out
        if j == 1 and self.maskable:
            return [["RAISE", self.pick(kinds), self.pick(self.maskable), self.num(1, 99)]]
        if j == 2 and self.maskable and not hd:
            s = self.pick(self.maskable)
            return [["MASK", self.num(0, 1), 0, bit(s), 3], ["RAISE", self.pick(kinds), s, self.num(1, 99)], ["PENDING"],
                    ["SIGWAIT", self.num(0, 2), bit(s), 2000000, 0, -1], ["PENDING"]]
        if j == 3 and not hd:
            s = self.pick([11, 8, 4, 7])
            h = self.p.new([["PENDING"], ["DOLONGJMP"]])
            return [["SIGACTION", s, self.pick([2, 3]), self.pick([0, SA_NODEFER]), self.set_(), 3, h + 1], ["LONGJMP", self.p.new([["RAISE", 8, s]])],
                    ["SIGACTION", s, 0, 0, 0, 3]]
        if j == 4:
            return [["MASK", self.num(0, 1), self.num(0, 2), self.set_(), 3]]
        return [["SIGACTION", self.pick(self.maskable + self.free), 0, 0, 0, 2], ["PENDING"]]

    def block(self, depth, mt, n, hd=False, ax=False):
        """mt: other threads exist; hd: inside a handler or exit handler."""
        out = []
        p = self.p
        for _ in range(self.num(0, n)):
            self.n += 1
            if self.n > 40:
                break
            k = self.num(0, 15)
            if k <= 2 and depth < 3 and self.nthr < 8 and not ax:
                out += self.thread(depth, mt)
            elif k <= 4 and depth < 3 and self.npid < 6:
                out += self.fork(depth, mt, ax)
            elif k <= 7:
                out += self.signal_ops(mt, hd)
            elif k == 8 and self.nsys < 3:
                self.nsys += 1
                self.tags.add("system")
                out.append(["SYSTEM", self.pick(CMDS), 0])
            elif k == 9 and self.nsys < 3:
                self.nsys += 1
                out.append(["POPEN", self.pick(POPENS)])
            elif k == 10:
                self.tags.add("libraries")
                s = self.num(0, 3)
                out.append(["DLOPEN", s, self.pick(LIBS), self.pick([1, 2, 0x101, 0x102]), 0])
                if self.num(0, 1):
                    out.append(["DLCLOSE", s, 0])
            elif k == 11:
                out += [["SETENV", "V1", self.pick(["", "x y", "z"])], ["GETENV", self.pick(["V1", "PATH", "NOPE"])]]
            elif k == 12:
                out.append(["WRITE", self.pick(["w1\n", "w2\n"])])
            elif k == 13:
                out.append(["EXEC", self.num(0, 5), self.pick(["/nonexistent/x", "./nonesuch", "/etc/passwd"]), ["a"], 1, [], 0, 0])
            elif k == 14 and self.nax < 2 and not ax and not hd:
                self.nax += 1
                self.tags.add("exit handlers")
                out.append(["ATEXIT", p.new(self.block(2, mt, 2, True, True))])
            else:
                out += self.local(2)
        return out

    def thread(self, depth, mt):
        p = self.p
        self.nthr += 1
        self.tags.add("threads")
        s = p.slot()
        r = p.new()
        arg = p.arg(r)
        fn = self.num(0, 3)
        attr = self.pick([AT.null, AT.null, AT.default, AT.stacksize, AT.guard, AT.detached, AT.badsched])
        j = self.num(0, 5)
        if attr == AT.detached:
            f = p.flag()
            self.det = True
            p.rout[r] += self.local(2) + [["SETF", f], ["RETURN", 1]]
            return [create(s, arg, fn=fn, attr=attr), ["WAITF", f, 1]]
        if attr == AT.badsched:
            p.rout[r] += [["RETURN", 1]]
            return [create(s, arg, fn=fn, attr=AT.null, hint=0)] + [["JOIN", s]]
        if j == 0:
            # cancelled
            f = p.flag()
            live = ["LIVE", self.pick(CANCEL_STYLES), f]
            body = self.local(2)
            body = [o for o in body if o[0] != "CSTATE"]
            if self.num(0, 1):
                body.append(["CLEANUP", p.new([live]), self.num(1, 100), 1])
            else:
                body.append(live)
            p.rout[r] += body
            return [create(s, arg, fn=fn, attr=attr, stack=262144), ["WAITF", f, 1], ["CANCEL", s], ["JOIN", s]]
        if j == 1:
            # runs along, on its own
            p.rout[r] += self.local(4) + [self.pick([["RETURN", 7], ["PEXIT", 8]])]
            return [create(s, arg, fn=fn, attr=attr, stack=262144)] + self.local(3) + [["JOIN", s]]
        body = self.block(depth + 1, True, 4)
        if self.num(0, 2) == 0:
            body = [["CLEANUP", p.new(body), self.num(1, 100), self.num(0, 1)]]
        if self.num(0, 14) == 0 and not self.nax:
            body += self.end(True, True)[0]
            self.tags.add("exit in a thread")
        else:
            body += [self.pick([["RETURN", self.num(0, 1 << 40)], ["PEXIT", self.num(0, 1 << 40)]])]
        p.rout[r] += body
        return [create(s, arg, fn=fn, attr=attr, stack=262144), ["JOIN", s]]

    def end(self, mt, thread):
        """How a process ends."""
        ks = ["exit", "exit", "_exit", "_Exit", "sig", "exec", "abort"]
        if not thread:
            ks += ["return", "return"]
        k = self.pick(ks)
        v = self.num(0, 255)
        if k == "return":
            return [["RETURN", v]], True
        if k == "sig":
            s = self.pick([15, 10, 2, 40, 64, 11, 9])
            return [["SIGACTION", s, 0, 0, 0, 1], ["MASK", self.num(0, 1), 1, bit(s), 1],
                    ["EXIT", self.pick([K["EX_raise"], EX.tkill] + ([] if mt or self.det else [EX.kill])), s]], False
        if k == "abort":
            return [["EXIT", EX.abort, 0]], False
        if k == "exec":
            return [["EXEC", self.num(0, 5), "@BIN@/vdump", ["vdump", "x y", ""], 3, [], 0, 1]], False
        return [["EXIT", getattr(EX, k), v]], k == "exit"

    def fork(self, depth, mt, ax):
        p = self.p
        self.npid += 1
        self.tags.add("forks")
        k = self.npid
        body = self.block(depth + 1, False, 4, ax, ax)
        e, _ = self.end(False, False)
        if ax:
            e = [["EXIT", EX._exit, self.num(0, 255)]]
        elif e[0][0] == "RETURN" and mt:
            # returning from a thread's routine in the child
            e = [["EXIT", EX.exit, e[0][1]]]
        r = p.new(body + e)
        mid = self.local(2) if self.num(0, 2) == 0 else []
        return [["FORK", k, self.num(0, 1), r]] + mid + [["WAITCHILD", k]]


@st.composite
def cases(draw):
    g = G(draw)
    main = g.p.rout[0]
    mode = draw(mode_st)
    cfg = {}
    main += g.setup()
    if mode == "dyn" and draw(st.integers(0, 5)) == 0:
        # in a constructor of one of the program's libraries, before main
        cfg["MAIN_EARLY"] = 1
        g.p.rout[1] += main + g.block(0, False, 5)
        del main[:]
        g.tags.add("before main")
        if draw(st.integers(0, 2)) == 0:
            g.p.rout[1] += g.end(False, True)[0]
            g.tags.add("ends before main")
    main += g.block(0, False, 8)
    e, _ = g.end(False, False)
    if not g.nax and g.num(0, 9) == 0:
        e = [["EXIT", EX.pexit, 0]]
        g.tags.add("pthread_exit of main")
    main += e
    env = {"V1": "env"}
    if draw(st.integers(0, 15)) == 0:
        env["MONITOR_DEBUG"] = "1"
    gates = draw(noise_gates(["init_process", "fini_process", "init_thread", "fini_thread", "pre_fork", "post_fork", "thread_pre_create",
                              "thread_post_create", "begin_process_exit", "dlopen", "dlclose"], 2, 2000))
    bare = int(draw(st.integers(0, 4)) == 0)
    return g.p.case(mode, gates=gates, cfg=cfg, env=env, bare=bare, meta={"tags": sorted(g.tags)})


def flow(r, ops, early=False):
    """What the application sees, per process and thread."""
    out, names, procs, cnt, last = {}, {}, {}, {}, {}
    m = lambda x: x & M64 & ~KEEP

    def nth(*k):
        cnt[k] = cnt.get(k, 0) + 1
        return cnt[k]
    for e in r.log:
        if e.type == T.MAIN and e.pid not in procs:
            procs[e.pid] = "main"
            names[e.kt] = ("main", "main")
        elif e.type == T.START:
            pn = procs.get(e.pid, "?")
            names[e.kt] = (pn, "thread %x.%d" % (e.a[0], nth(pn, e.a[0])))
        elif e.type == T.RES and e.code == OP.FORK and e.a[1] == 0 and e.pid not in procs:
            pn = procs.get(e.a[3], "?")
            last[e.pid] = dict(last.get(e.a[3], {}))
            procs[e.pid] = "%s/%d.%d" % (pn, e.a[0], nth(pn, "fork", e.a[0]))
            names[e.kt] = (procs[e.pid], "main")
        elif e.type == T.DUMP:
            k = ("dump", e.pid if e.pid in procs else "shell")
            pn = procs.get(e.pid, "command")
            dumps = out.setdefault((pn, "programs"), [])
            argv, env, cwd = dump_of(r, e, b"")
            env = [x for x in env if not x.startswith((b"LD_PRELOAD=", b"MONITOR", b"VS", b"PWD=", b"OLDPWD=", b"SHLVL="))]
            dumps.append((argv, sorted(env), cwd, m(e.a[4])))
            continue
        if e.kt not in names:
            continue
        key = names[e.kt]
        L = out.setdefault(key, [])
        if e.type == T.START:
            L.append(("start", e.code, m(e.a[3]), e.a[5]))
        elif e.type == T.HANDLER:
            L.append(("handler", e.code, e.a[0], e.a[1], e.a[2] if e.a[1] != 0 else 0, m(e.a[3]), m(e.a[4]), 0 if early else e.a[5], e.a[7]))
        elif e.type == T.HLEAVE:
            L.append(("end of handler", e.a[0], m(e.a[1])))
        elif e.type == T.CLEANUP:
            L.append(("cleanup", e.a[0]))
        elif e.type == T.KEYDTOR:
            if key[1] != "main":
                L.append(("destructor", e.a[0]))
        elif e.type == T.MARK_ATEXIT:
            L.append(("exit handler", e.a[0]))
        elif e.type == T.ENDR:
            L.append(("end", e.code, e.a[0]))
        elif e.type == T.LIBC:
            L.append(("library", e.code, e.a[0]))
        elif e.type == T.OP and e.code in (OP.EXIT, OP.PEXIT, OP.EXEC, OP.LIVE, OP.SYSTEM, OP.JOIN, OP.CANCEL, OP.RAISE, OP.SIGWAIT):
            L.append(("call", OP.name(e.code), e.a[0]))
        elif e.type == T.RES:
            v = result(r, e, ops, m, last.setdefault(e.pid, {}))
            L.append((OP.name(e.code), e.a[0]) + tuple(v))
    for L in out.values():
        if L and L[0][0] == "start" and L[0][3]:
            # the end of the process may overtake the end of a detached thread
            while L[-1][0] in ("end", "destructor"):
                L.pop()
        # a thread that ends the process may overtake the return of pthread_create
        if L and L[-1][:2] == ("call", "JOIN"):
            L.pop()
        if L and L[-1][0] == "CREATE":
            L.pop()
    return out


def result(r, e, ops, m, bysig):
    c, a = e.code, e.a
    if c == OP.CREATE:
        return [a[1], a[2]]
    if c == OP.JOIN:
        return [a[1], a[2], a[3]]
    if c in (OP.CANCEL, OP.DETACH, OP.CSTATE, OP.CTYPE):
        return [a[1]]
    if c == OP.FORK:
        return ["child" if a[1] == 0 else "parent" if a[1] > 0 else a[2]]
    if c == OP.WAITCHILD:
        return [a[1] > 0, a[2] & ~0x80]
    if c == OP.SYSTEM:
        return [a[1] & ~0x80, a[2] if a[1] == -1 else 0, a[3] == a[4]]
    if c == OP.POPEN:
        return [a[1], r.raw[a[2]:a[2] + a[3]]]
    if c == OP.GETENV:
        return [a[1], r.cstr(a[2]) if a[1] else None]
    if a[0] == -1:      # by a library itself
        return [a[1] != 0]
    if c == OP.DLOPEN:
        return [a[1] != 0, a[2], r.cstr(a[3]) if a[3] >= 0 else None, a[4]]
    if c == OP.DLCLOSE:
        return [a[1]]
    if c == OP.EXEC:
        return [a[1], a[2]]
    if c == OP.MASK:
        return [a[1], a[2] if a[1] else 0, m(a[3]), m(a[4]), m(a[5])]
    if c == OP.PENDING:
        return [m(a[1]), m(a[2])]
    if c == OP.SIGACTION:
        o = ops[a[0]]
        v = [a[1], a[2] if a[1] else 0, a[3]]
        if a[1] == 0 and o[5] & 2 and not bysig.get(o[1]):
            v += [a[4] & 0xffffffff & ~SA_RESTORER, a[5] & M64 & ~bits([9, 19])]
        if a[1] == 0 and o[5] & 1:
            bysig[o[1]] = 0
        return v
    if c == OP.SIGNAL:
        bysig[ops[a[0]][1]] = 1
        return [a[1]]
    if c == OP.SIGWAIT:
        return [a[1], a[2] if a[1] == -1 else 0, a[3], a[4], a[5], a[6] if a[5] == -1 else 0, m(a[7])]
    if c == OP.LONGJMP:
        return [a[1], m(a[2])]
    if c == OP.RAISE:
        return [a[1], a[2], m(a[3])]
    return []


class Check(BaseCheck):
    id = "C26"
    modes = ["dyn", "native", "static", "libs", "bare"]
    quick = (60, 40000)
    rule = ("A case is a generated program of nested threads (joined, detached, cancelled, overlapping), forks, handlers, masks, signals, waits "
            "for signals, faults, system, popen, library loads, failing and final exec, exit handlers and every way to end, run natively and "
            "monitored (preloaded or statically linked, with random delays in the callbacks); the traces of all threads of all processes, the "
            "output and the exit status are compared. Non-trivial: threads, forks, signals, commands or libraries occur. Distinct by program text.")
    assumptions = ["the deviations by design listed in DESIGN.md are not generated"]

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        ops = opmap(case)
        n = ctx.run(case, mode="native", gates=[])
        if n.timed_out:
            ctx.hang = False
            return
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the program does not terminate")
            return
        ctx.expect(r.status & ~0x80 == n.status & ~0x80, "status %#x, natively %#x" % (r.status, n.status))
        early = "MAIN_EARLY" in case.get("cfg", {})       # (initialising the library may set errno)
        fr, fn = flow(r, ops, early), flow(n, ops, early)
        if ctx.expect(sorted(fr) == sorted(fn), "threads %s, natively %s" % (sorted(set(fr) - set(fn))[:3], sorted(set(fn) - set(fr))[:3])):
            for k in sorted(fr):
                if fr[k] != fn[k]:
                    ctx.fail("trace of %s differs: %s" % (k, next(
                        ("%s, natively %s" % (x, y) for x, y in zip(fr[k], fn[k]) if x != y),
                        "%d events, natively %d" % (len(fr[k]), len(fn[k])))))
        if "MONITOR_DEBUG" not in case.get("env", {}):
            ctx.expect(r.out == n.out, "output %r, natively %r" % (r.out[-80:], n.out[-80:]))
        if case["meta"].get("tags"):
            ctx.nontrivial = ["%s/%s" % (case["mode"], t) for t in case["meta"]["tags"]] + (["no client"] if case.get("bare") else [])


CHECK = Check()
