"""monitor-run and monitor-link: arguments, options, environment, preload order, links."""
import os
import shutil
import signal
import subprocess
import tempfile

from hypothesis import strategies as st

from ..build import CC, HARNESS, sh
from ..engine import BaseCheck

SHELLVARS = {"LD_PRELOAD", "PWD", "OLDPWD", "_", "SHLVL", "MONITOR_DEBUG"}
WORDS = ["", " ", "a", "a b", "  x  ", "*", "?", "[a-z]*", "$HOME", "${x}", "`id`", "$(id)", "'", '"', "\\", "\\n", "\n", "a\nb", "\t", "-d", "-i",
         "--", "-h", "--help", "--insert", "--debug", "-x", "-", "=", "a=b", "!", "#", "# c", ";", "a;b", "&", "|", ">", "<", "(", ")", "~", "~root",
         "{a,b}", "%s", "\\c", "-n", "-e", "é", "\x01", "\x7f", "x" * 300, "x", "!="]
word = st.one_of(st.sampled_from(WORDS), st.text(st.characters(codec="utf-8", exclude_characters="\0"), max_size=8))
words = st.one_of(st.lists(word, max_size=6), st.lists(word, max_size=60))
envs = st.dictionaries(
    st.one_of(st.sampled_from(["FOO", "A_B", "x1", "prefix", "libdir", "file", "exec_prefix", "libmonitor", "preload_files", "LIBDIR", "LD_LIBRARY_PATH2",
                               "MONITOR", "verbose", "command", "insert", "args", "name"]),
              st.from_regex(r"[A-Za-z]{3,6}_[a-z0-9]{1,5}", fullmatch=True)), word, max_size=6)
CWDS = [".", "d", "d'q", "d$HOME", "d*", "d\"q", "d#", "d\\b", "d;e", "d(f)", "-d"]
ENDS = ["e0", "e1", "e255", "e77", "r0", "r3", "s15", "s9", "s10", "s6", "s11"]
BADOPT = ["-x", "-", "-di", "--insert=a", "--insertx", "-debug", "--debugger", "---", "-I", "--Help", "-i=x", "-?", "-hd", "--wrapx", "-ii", "-- "]
NLIB = 3


@st.composite
def opt_run(draw):
    if draw(st.integers(0, 3)) == 0:
        return ["d", draw(st.sampled_from(["-d", "--debug"]))]
    return ["i", draw(st.sampled_from(["-i", "--insert"])), draw(st.integers(1, NLIB)), draw(st.sampled_from(["abs", "rel", "dot", "sub", "up", "plain"]))]


@st.composite
def run_case(draw):
    c = {"kind": "run"}
    c["opts"] = draw(st.lists(opt_run(), max_size=5))
    c["dd"] = draw(st.integers(0, 3)) == 0
    c["bad"] = draw(st.sampled_from([None] * 10 + ["help", "unknown", "unknown", "missing", "emptyarg", "nofile", "dir", "nocmd", "emptycmd", "nolib", "notfound"]))
    c["badopt"] = draw(st.sampled_from(BADOPT))
    c["helpopt"] = draw(st.sampled_from(["-h", "--help"]))
    c["insopt"] = draw(st.sampled_from(["-i", "--insert"]))
    c["cmd"] = draw(st.sampled_from(["abs", "path", "rel", "up"]))
    c["args"] = draw(words)
    c["env"] = draw(envs)
    c["prior"] = draw(st.sampled_from([None, None, "", "p1", "p1:p2", "p2 p1", ":p1", "p1:", "p2:p2", "c1", "c2:p1", "c3", "lm"]))
    c["debugenv"] = draw(st.sampled_from([None] * 5 + ["", "1"]))
    c["stdin"] = draw(st.one_of(st.just(""), word))
    c["end"] = draw(st.sampled_from(ENDS))
    c["cwd"] = draw(st.sampled_from([".", "."] + CWDS))
    c["outer"] = draw(st.lists(opt_run(), max_size=2)) if draw(st.integers(0, 5)) == 0 else None
    return c


sym = st.sampled_from(["foo", "bar", "malloc", "read", "x1", "MPI_Init", "main", "pthread_create", "a.b"])


@st.composite
def opt_link(draw):
    k = draw(st.sampled_from("iuvw"))
    sp = {"i": ["-i", "--insert"], "u": ["-u", "--undefined"], "v": ["-v", "--verbose"], "w": ["-w", "--wrap"]}[k]
    o = [k, draw(st.sampled_from(sp))]
    if k == "i":
        o.append(draw(st.sampled_from(["a.o", "b.o", "./c.o", "/x/y.o", "lib.a", "-z.o"])))
    elif k != "v":
        o.append(draw(sym))
    return o


larg = st.one_of(word, st.sampled_from(["-lm", "-lfoo", "-l:a.b", "-lz", "-lm", "-l", "-lpthread", "-Lx", "-o", "out", "a.c", "b.o", "-Wl,-lx", "-L", "-DX=\"a b\"", "-Wl,--as-needed"]))


@st.composite
def link_case(draw):
    c = {"kind": "link"}
    c["opts"] = draw(st.lists(opt_link(), max_size=6))
    c["dd"] = draw(st.integers(0, 3)) == 0
    c["bad"] = draw(st.sampled_from([None] * 8 + ["help", "unknown", "unknown", "missing", "emptyarg", "nocmd", "noargs", "emptycmd", "notfound"]))
    c["badopt"] = draw(st.sampled_from(BADOPT))
    c["helpopt"] = draw(st.sampled_from(["-h", "--help"]))
    c["insopt"] = draw(st.sampled_from(["-i", "--insert", "-u", "--undefined", "-w", "--wrap"]))
    c["cmd"] = draw(st.sampled_from(["abs", "path", "rel"]))
    first = draw(larg.filter(lambda s: s != ""))
    c["args"] = [first] + draw(st.one_of(st.lists(larg, max_size=8), st.lists(larg, max_size=40)))
    c["env"] = {k: v for k, v in draw(envs).items() if k.startswith("FOO") or "_" in k and k not in ("exec_prefix", "preload_files")}
    c["stdin"] = draw(st.one_of(st.just(""), word))
    c["end"] = draw(st.sampled_from(["e0", "e0", "e1", "e4", "e255", "s15"]))
    return c


FEATURES = ["thread", "fork", "sig", "math", "system", "dl", "plain", "mask", "vec"]


@st.composite
def build_case(draw):
    c = {"kind": "build"}
    c["feats"] = [[draw(st.sampled_from(FEATURES)), draw(st.integers(1, 9)), draw(st.sampled_from(["main", "a", "z1", "z2", "so"]))]
                  for _ in range(draw(st.integers(1, 6)))]
    for f in c["feats"]:
        if f[0] in ("plain", "mask", "sig") and f[2] == "so":    # calls in shared libraries are not wrapped
            f[2] = "a"
    c["end"] = draw(st.sampled_from(["return", "exit", "_exit", "abort", "pexit", "texit"]))
    c["val"] = draw(st.integers(0, 255))
    c["cc"] = draw(st.sampled_from(["gcc", "gcc", "clang"]))
    c["cflags"] = draw(st.lists(st.sampled_from(["-O0", "-O1", "-O2", "-g", "-fPIC", "-ffunction-sections", "-Wl,--gc-sections", "-Wl,-z,now", "-rdynamic",
                                                 "-Wl,--export-dynamic", "-fno-common"]), max_size=4, unique=True))
    c["form"] = draw(st.sampled_from(["src", "obj", "obj", "mixed"]))
    c["wrap"] = draw(st.sampled_from([None, None, "foo", "foo+u"]))
    c["clientz"] = draw(st.booleans())          # the client needs a function of the application's library
    c["clients"] = draw(st.integers(0, 2))
    c["verbose"] = draw(st.integers(0, 4)) == 0
    c["fail"] = draw(st.sampled_from([None] * 6 + ["syntax", "nofile", "undef", "nolib", "badflag"]))
    return c


FEAT_C = {
    "thread": "static void *t@(void *a) { return (char *) a + 1; }\nint f@(void) { pthread_t t[N]; int i, s = 0; void *r;\n"
              "for (i = 0; i < N; i++) pthread_create(&t[i], NULL, t@, (void *) (long) i);\n"
              "for (i = 0; i < N; i++) { pthread_join(t[i], &r); s += (long) r; } return s; }\n",
    "fork": "int f@(void) { int s, k = 0; pid_t p = fork(); if (p == 0) _exit(N); waitpid(p, &s, 0); return s; }\n",
    "sig": "static volatile int h@; static void g@(int s) { h@ += s; }\nint f@(void) { struct sigaction a; int i; memset(&a, 0, sizeof a);\n"
           "a.sa_handler = g@; sigaction(SIGUSR1, &a, NULL); for (i = 0; i < N; i++) raise(SIGUSR1); return h@; }\n",
    "math": "int f@(void) { volatile double x = N; return (int) (1000 * pow(x, 0.5)); }\n",
    "system": "int f@(void) { fflush(stdout); return system(\"exit \" NS); }\n",
    "dl": "int f@(void) { void *h = dlopen(NULL, RTLD_LAZY); int r = h != NULL; if (h) dlclose(h); return r + N; }\n",
    "plain": "extern int foo(int); int f@(void) { return foo(N); }\n",
    "mask": "int f@(void) { sigset_t s, o; sigemptyset(&s); sigaddset(&s, N); pthread_sigmask(SIG_BLOCK, &s, NULL);\n"
            "sigprocmask(SIG_UNBLOCK, &s, &o); return sigismember(&o, N) + 2 * (signal(SIGUSR2, SIG_IGN) == SIG_DFL); }\n",
    "vec": "int f@(void) { int s; pid_t p = vfork(); if (p == 0) { execl(\"/bin/sh\", \"sh\", \"-c\", \"exit \" NS, (char *) 0); _exit(99); }\n"
           "waitpid(p, &s, 0); return s; }\n",
}
HEAD = ("#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <math.h>\n#include <pthread.h>\n#include <signal.h>\n#include <stdio.h>\n"
        "#include <stdlib.h>\n#include <string.h>\n#include <sys/wait.h>\n#include <unistd.h>\n")


class Res:
    def __init__(self, status, out, err, recs, cbs, pid):
        self.status, self.out, self.err, self.recs, self.cbs, self.pid = status, out, err, recs, cbs, pid

    def get(self, k):
        return [r[1:] for r in self.recs if r[:1] == k.encode()]


class Check(BaseCheck):
    id = "C24"
    modes = []
    quick = (60, 4000)
    rule = ("A case is a generated command line of monitor-run (options in every spelling and order, client libraries by absolute and relative "
            "path, nested use, working directory, environment, prior preload, arguments with any bytes), one of monitor-link with a stand-in compiler, or a "
            "generated program built by gcc or clang directly and through monitor-link. Non-trivial: a run with options and arguments, a link "
            "with options, or a program that was built. Distinct by case text.")
    assumptions = ["library and object names without spaces, colons or shell metacharacters (the loader's and the scripts' separators)",
                   "bad usage other than an explicit error (no command at all) may print the usage text with status 0"]

    def strategy(self, tier):
        return st.one_of(run_case(), run_case(), run_case(), run_case(), link_case(), link_case(), link_case(), build_case())

    # -- fixtures --
    def prepare(self, build):
        d = os.path.join(build.dir, "s")
        os.mkdir(d)
        build.s = d
        src = lambda f: os.path.join(HARNESS, f)
        inc = "-I" + os.path.join(build.inst, "include")
        cmds = [[CC, "-O1", "-w", "-o", os.path.join(d, "sapp"), src("sapp.c")]]
        for k in range(1, NLIB + 1):
            cmds.append([CC, "-O1", "-w", "-fPIC", "-shared", inc, "-DID=%d" % k, "-o", os.path.join(d, "c%d.so" % k), src("slib.c")])
        for k in (1, 2):
            cmds.append([CC, "-O1", "-w", "-fPIC", "-shared", inc, "-o", os.path.join(d, "p%d.so" % k), src("slib.c")])
            cmds.append([CC, "-O1", "-w", "-c", inc, "-DID=%d" % k, "-DTHREADS", "-o", os.path.join(d, "c%d.o" % k), src("slib.c")])
        for c in cmds:
            sh(c)
        text = open(build.monitor_run).read()
        nolib = os.path.join(d, "run-nolib")
        with open(nolib, "w") as f:
            f.write(text.replace(build.inst, os.path.join(build.dir, "gone")))
        os.chmod(nolib, 0o755)
        wrapa = os.path.join(build.inst, "lib", "libmonitor_wrap.a")
        build.wrapa = wrapa
        names = set()
        for line in sh(["nm", wrapa]).split("\n"):
            w = line.split()
            if len(w) == 3 and w[1] in "TtWw" and w[2].startswith("__wrap_"):
                names.add(w[2][len("__wrap_"):])
        build.wrapnames = sorted(names)

    # -- running --
    def spawn(self, argv, cwd, env, stdin, d):
        out, cbs = os.path.join(d, "out"), os.path.join(d, "cbs")
        for f in (out, cbs):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(env, VS_OUT=out, VS_CBS=cbs)
        p = subprocess.Popen([os.fsencode(a) if isinstance(a, str) else a for a in argv], cwd=cwd, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=True, restore_signals=True)
        try:
            o, e = p.communicate(stdin, 40)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None
        recs = open(out, "rb").read().split(b"\0")[:-1] if os.path.exists(out) else []
        c = [x.split() for x in open(cbs).read().split("\n")[:-1]] if os.path.exists(cbs) else []
        return Res(p.returncode, o, e, recs, [(x[0], int(x[1]), int(x[2]), int(x[3])) for x in c], p.pid)

    def judge(self, case, ctx):
        base = tempfile.mkdtemp(prefix="c24-", dir=ctx.runner.dir)
        try:
            ctx.runs += 1
            getattr(self, "judge_" + case["kind"])(case, ctx, base)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def libpath(self, k, how, cwd):
        """How the library is named on the command line."""
        s = self.build.s
        f = "c%d.so" % k
        if how in ("rel", "dot", "sub", "plain"):
            dst = os.path.join(cwd, "sub")
            os.makedirs(dst, exist_ok=True)
            for x in (os.path.join(cwd, f), os.path.join(dst, f)):
                if not os.path.exists(x):
                    os.symlink(os.path.join(s, f), x)
        return {"abs": os.path.join(s, f), "rel": f, "plain": f, "dot": "./" + f, "sub": "sub/" + f,
                "up": os.path.relpath(os.path.join(s, f), cwd)}[how]

    def mkopts(self, opts, cwd):
        av, libs, debug = [], [], False
        for o in opts:
            if o[0] == "d":
                av.append(o[1])
                debug = True
            else:
                av += [o[1], self.libpath(o[2], o[3], cwd)]
                libs.append(o[2])
        return av, libs, debug

    def judge_run(self, c, ctx, base):
        b = self.build
        cwd = os.path.normpath(os.path.join(base, c["cwd"]))
        os.makedirs(cwd, exist_ok=True)
        bad = c["bad"]
        av, libs, debug = self.mkopts(c["opts"], cwd)
        script = os.path.join(b.s, "run-nolib") if bad == "nolib" else b.monitor_run
        argv = [script]
        outer = []
        if c["outer"] is not None and bad is None:
            ov, outer, od = self.mkopts(c["outer"], cwd)
            argv = [b.monitor_run] + ov + [b.monitor_run]
            debug = debug or od
        argv += av
        env = {k: v.encode("utf-8", "surrogateescape") for k, v in c["env"].items()}
        env["PATH"] = "/usr/bin:/bin:" + b.s
        env["VS_END"] = c["end"]
        if c["debugenv"] is not None:
            env["MONITOR_DEBUG"] = c["debugenv"]
        prior = []
        if c["prior"] is not None:
            full = lambda x: b.libmonitor if x == "lm" else x and os.path.join(b.s, x + ".so")
            sep = " " if " " in c["prior"] else ":"
            env["LD_PRELOAD"] = sep.join(full(x) for x in c["prior"].split(sep))
            prior = [full(x) for x in c["prior"].split(sep) if x]
        cmd = {"abs": os.path.join(b.s, "sapp"), "path": "sapp", "rel": "./app", "up": os.path.relpath(os.path.join(b.s, "sapp"), cwd)}[c["cmd"]]
        if c["cmd"] == "rel":
            os.symlink(os.path.join(b.s, "sapp"), os.path.join(cwd, "app"))
        if bad == "help":
            argv.append(c["helpopt"])
        elif bad == "unknown":
            argv.append(c["badopt"])
        elif bad == "missing":
            argv.append(c["insopt"])
        elif bad == "emptyarg":
            argv += [c["insopt"], ""]
        elif bad == "nofile":
            argv += [c["insopt"], "nonesuch.so"]
        elif bad == "dir":
            os.mkdir(os.path.join(cwd, "dir.so"))
            argv += [c["insopt"], "dir.so"]
        if c["dd"] and bad not in ("missing",):
            argv.append("--")
        if bad == "emptycmd":
            argv += [""]
        elif bad == "notfound":
            cmd = "./nonesuch"
        if bad not in ("nocmd", "missing"):
            argv += [cmd] + [x.encode("utf-8", "surrogateescape") for x in c["args"]]
        # -- run --
        stdin = c["stdin"].encode("utf-8", "surrogateescape")
        r = self.spawn(argv, cwd, env, stdin, base)
        if r is None:
            ctx.fail("monitor-run does not terminate")
            return
        if bad is not None:
            ctx.expect(not r.recs, "the program ran in spite of bad usage (%s)" % bad)
            if c["prior"] != "lm":
                ctx.expect(not r.cbs, "callbacks in spite of bad usage (%s)" % bad)
            ctx.expect(r.status >= 0, "killed by signal %d" % -r.status)
            if bad in ("help", "nocmd", "emptycmd"):
                ctx.expect(b"sage" in r.out + r.err, "no usage text (%s)" % bad)
                if bad == "help":
                    ctx.expect(r.status == 0, "status %d after help" % r.status)
            else:
                ctx.expect(r.status > 0, "status %d (%s)" % (r.status, bad))
                ctx.expect(r.err != b"", "no error message (%s)" % bad)
                ctx.expect(r.out == b"", "output in spite of bad usage (%s)" % bad)
            ctx.nontrivial = ["run/bad %s" % bad]
            return
        want = -int(c["end"][1:]) if c["end"][0] == "s" else int(c["end"][1:])
        if not ctx.expect(r.status == want, "status %d, expected %d: %r" % (r.status, want, r.err[:200])):
            return
        if not ctx.expect(len(r.get("P")) == 1, "the program ran %d times" % len(r.get("P"))):
            return
        args = [cmd.encode()] + [x.encode("utf-8", "surrogateescape") for x in c["args"]]
        got = r.get("A")
        ctx.expect(got[1:] == args[1:], "arguments %r, expected %r" % (got[1:][:20], args[1:][:20]))
        ctx.expect(got[0] == args[0], "argv[0] %r, expected %r" % (got[0], args[0]))
        ctx.expect(r.out == stdin, "output %r, expected %r" % (r.out[:80], stdin[:80]))
        ctx.expect(os.path.realpath(r.get("D")[0]) == os.path.realpath(cwd).encode(), "directory %r, expected %r" % (r.get("D"), cwd))
        e1 = dict(x.split(b"=", 1) for x in r.get("E"))
        e0 = {os.fsencode(k): os.fsencode(v) for k, v in env.items()}
        e0[b"VS_OUT"], e0[b"VS_CBS"] = os.path.join(base, "out").encode(), os.path.join(base, "cbs").encode()
        for k in set(e0) | set(e1):
            if k.decode("latin1") in SHELLVARS:
                continue
            ctx.expect(e0.get(k) == e1.get(k), "environment: %s is %r, expected %r" % (k.decode("latin1"), e1.get(k), e0.get(k)))
        ctx.expect(len(e1) == len(r.get("E")), "an environment variable is there twice")
        if debug:
            ctx.expect(e1.get(b"MONITOR_DEBUG", b"") != b"", "no MONITOR_DEBUG with the debug option")
            ctx.expect(b"monitor" in r.err, "no debug output with the debug option")
        else:
            ctx.expect(e1.get(b"MONITOR_DEBUG") == (None if c["debugenv"] is None else c["debugenv"].encode()),
                       "MONITOR_DEBUG is %r without the debug option" % e1.get(b"MONITOR_DEBUG"))
            if c["debugenv"] is None:
                ctx.expect(r.err == b"", "messages: %r" % r.err[:200])
        ctx.expect(b"ld.so" not in r.err, "loader: %r" % r.err[:200])
        # load order
        order = [os.path.join(b.s, "c%d.so" % k) for k in libs] + [b.libmonitor]
        if c["outer"] is not None:
            order += [os.path.join(b.s, "c%d.so" % k) for k in outer] + [b.libmonitor]
        order += prior
        order = list(dict.fromkeys(os.path.realpath(x) for x in order))
        loaded = [os.path.realpath(x.decode()) for x in r.get("L") if x.startswith(b"/")]
        loaded = [x for x in loaded if x in order or x.startswith(b.dir)]
        ctx.expect(loaded == order, "libraries loaded %r, expected %r" % ([os.path.basename(x) for x in loaded], [os.path.basename(x) for x in order]))
        # callbacks
        mine = r.cbs
        pid = int(r.get("I")[0])
        ctx.expect(pid == r.pid, "the program ran in another process than monitor-run's")
        ini = [k for k, x in enumerate(mine) if x[0] == "init"]
        if not libs:
            if c["outer"] is None and c["prior"] != "lm":
                ctx.expect(not mine, "callbacks of a client that was not chosen: %r" % mine[:4])
        elif ctx.expect(bool(ini), "no callbacks"):
            if c["outer"] is None and c["prior"] != "lm":
                ctx.expect(len(ini) == 1, "%d init_process" % len(ini))
            last = mine[ini[-1]]
            ctx.expect(last[1] == libs[0], "callbacks of library %d, expected %d" % (last[1], libs[0]))
            ctx.expect(last[2] == pid, "init_process in another process")
            ctx.expect(last[3] == len(args), "init_process: argc %d, expected %d" % (last[3], len(args)))
            fin = [x for x in mine[ini[-1]:] if x[0] == "fini"]
            n = 0 if c["end"] == "s9" else 1
            ctx.expect([x[1:3] for x in fin] == [(libs[0], pid)] * n, "fini_process %r" % fin)
        if c["opts"] or c["args"]:
            ctx.nontrivial = ["run/%s%s%s" % ("nested" if c["outer"] is not None else "plain", " prior" if prior else "", " libs" if libs else "")]

    def judge_link(self, c, ctx, base):
        b = self.build
        bad = c["bad"]
        argv = [b.monitor_link]
        for o in c["opts"]:
            argv += o[1:]
        env = {k: v.encode("utf-8", "surrogateescape") for k, v in c["env"].items()}
        env.update(PATH="/usr/bin:/bin:" + b.s, VS_END=c["end"])
        cmd = {"abs": os.path.join(b.s, "sapp"), "path": "sapp", "rel": "./app"}[c["cmd"]]
        if c["cmd"] == "rel":
            os.symlink(os.path.join(b.s, "sapp"), os.path.join(base, "app"))
        if bad == "help":
            argv.append(c["helpopt"])
        elif bad == "unknown":
            argv.append(c["badopt"])
        elif bad == "missing":
            argv.append(c["insopt"])
        elif bad == "emptyarg":
            argv += [c["insopt"], ""]
        if c["dd"] and bad != "missing":
            argv.append("--")
        if bad == "emptycmd":
            argv.append("")
        elif bad == "notfound":
            cmd = "./nonesuch"
        args = [x.encode("utf-8", "surrogateescape") for x in c["args"]]
        if bad == "noargs":
            argv.append(cmd)
        elif bad == "emptycmd":
            argv.append("")
        elif bad not in ("missing", "nocmd"):
            argv += [cmd] + args
        stdin = c["stdin"].encode("utf-8", "surrogateescape")
        r = self.spawn(argv, base, env, stdin, base)
        if r is None:
            ctx.fail("monitor-link does not terminate")
            return
        verbose = any(o[0] == "v" for o in c["opts"])
        if bad is not None:
            ctx.expect(not r.recs, "the compiler ran in spite of bad usage (%s)" % bad)
            ctx.expect(r.status >= 0, "killed by signal %d" % -r.status)
            if bad in ("help", "nocmd", "emptycmd", "noargs"):
                ctx.expect(b"sage" in r.out + r.err, "no usage text (%s)" % bad)
                if bad == "help":
                    ctx.expect(r.status == 0, "status %d after help" % r.status)
            else:
                ctx.expect(r.status > 0, "status %d (%s)" % (r.status, bad))
                ctx.expect(r.err != b"", "no error message (%s)" % bad)
            ctx.nontrivial = ["link/bad %s" % bad]
            return
        want = -int(c["end"][1:]) if c["end"][0] == "s" else int(c["end"][1:])
        if not ctx.expect(r.status == want or want < 0 and r.status == 128 - want, "status %d, expected the compiler's, %d: %r" % (r.status, want, r.err[:200])):
            return
        if not ctx.expect(len(r.get("P")) == 1, "the compiler ran %d times" % len(r.get("P"))):
            return
        if verbose:
            ctx.expect(r.out.endswith(stdin) and len(r.out) > len(stdin), "verbose output %r" % r.out[:100])
            if not any(b"\\" in x for x in args):      # the shell's echo may interpret escapes
                ctx.expect(cmd.encode() in r.out and b.wrapa.encode() in r.out, "verbose output lacks the command line")
        else:
            ctx.expect(r.out == stdin, "output %r, expected %r" % (r.out[:80], stdin[:80]))
        if want >= 0:
            ctx.expect(r.err == b"", "messages %r" % r.err[:100])
        got = r.get("A")
        if not ctx.expect(got[0] == cmd.encode(), "compiler %r, expected %r" % (got[0], cmd)):
            return
        got = got[1:]
        n = len(args)
        ok = False
        why = "the compiler's own arguments are not handed over: %r" % got[-n - 8:][:30]
        for p in range(len(got) - n + 1):
            if got[p:p + n] == args:
                why = self.around(c, got[:p], got[p + n:], args)
                if why is None:
                    ok = True
                    break
        ctx.expect(ok, why)
        e1 = dict(x.split(b"=", 1) for x in r.get("E"))
        for k, v in env.items():
            ctx.expect(e1.get(k.encode()) == (v if isinstance(v, bytes) else v.encode()), "environment: %s" % k)
        if c["opts"]:
            ctx.nontrivial = ["link/%s" % "".join(sorted({o[0] for o in c["opts"]}))]

    def around(self, c, before, after, args):
        """What monitor-link adds before and after the given arguments."""
        b = self.build
        rest = before + after
        flag = lambda f, n: (b"-Wl,--%s=%s" % (f, n.encode()) in rest) or (b"-Wl,--%s,%s" % (f, n.encode()) in rest)
        for n in b.wrapnames + [o[2] for o in c["opts"] if o[0] == "w"]:
            if not flag(b"wrap", n):
                return "no --wrap for %s" % n
        for o in c["opts"]:
            if o[0] == "u" and not flag(b"undefined", "__wrap_" + o[2]):
                return "no --undefined for %s" % o[2]
        extra = [x for x in rest if not x.startswith((b"-Wl,--wrap", b"-Wl,--undefined"))]
        ins = [o[2].encode() for o in c["opts"] if o[0] == "i"]
        libs = [x for x in args if x.startswith(b"-l") and len(x) > 2]
        want = ins + [b.wrapa.encode()] + libs
        if extra[:len(want)] != want:
            return "added %r, expected %r" % (extra[:20], want[:20])
        for x in extra[len(want):]:
            if not x.startswith(b"-l"):
                return "also added %r" % x
        if [x for x in before if x in want and not x.startswith(b"-l")]:
            return "files are added before the arguments"
        known = set(b.wrapnames) | {o[2] for o in c["opts"] if o[0] == "w"}
        for x in rest:
            if x.startswith(b"-Wl,--wrap"):
                n = x[len(b"-Wl,--wrap="):].decode()
                if n not in known and not n.lower().startswith(("mpi", "pmpi")):
                    return "wraps %s" % n
        return None

    def judge_build(self, c, ctx, base):
        b = self.build
        files = {k: HEAD for k in ("main", "a", "z1", "z2", "so")}
        calls = ""
        for k, (f, n, where) in enumerate(c["feats"]):
            files[where] += "#undef N\n#define N %d\n#undef NS\n#define NS \"%d\"\n" % (n, n) + FEAT_C[f].replace("@", str(k))
            calls += "extern int f%d(void); printf(\"%s %%d\\n\", f%d()); fflush(stdout);\n" % (k, f, k)
        files["main"] += "extern int foo(int);\n" if c["wrap"] else ""
        end = {"return": "return V;", "exit": "exit(V);", "_exit": "fflush(stdout); _exit(V);", "abort": "fflush(stdout); abort();",
               "pexit": "fflush(stdout); pthread_exit(NULL);",
               "texit": "{ pthread_t t; pthread_create(&t, NULL, tx, NULL); pthread_join(t, NULL); for (;;) pause(); }"}[c["end"]]
        files["main"] += ("#define V %d\nstatic void *tx(void *a) { exit(V); }\nint main(int argc, char **argv) {\n%s%s%s return 0; }\n"
                          % (c["val"], calls, 'printf("foo %d\\n", foo(2));\n' if c["wrap"] else "", end))
        files["a"] += "int a_dummy;\n"
        files["z1"] += "int z1_dummy;\n"
        files["z2"] += "int z2_dummy;\n"
        files["foo"] = "int foo(int x) { return 3 * x; }\n"
        files["help"] = "int z_help(int x) { return x + 7; }\n"
        files["wrap"] = "extern int __real_foo(int); int __wrap_foo(int x) { return __real_foo(x) + 100; }\n"
        files["cz"] = "#include <stdio.h>\nextern int z_help(int); void *monitor_init_library_x(void) { return 0; }\nvoid monitor_init_library(void) { char b[20]; " \
                      "FILE *f = fopen(\"czlog\", \"w\"); fprintf(f, \"%d\", z_help(1)); fclose(f); }\n"
        if c["fail"] == "syntax":
            files["a"] += "int x( {\n"
        for k, t in files.items():
            with open(os.path.join(base, k + ".c"), "w") as f:
                f.write(t)
        run = lambda cmd: subprocess.run(cmd, cwd=base, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        opt = [x for x in c["cflags"] if not x.startswith("-Wl") and x != "-rdynamic"]
        comp = [c["cc"], "-w", "-pthread"] + opt

        def must(cmd):
            p = run(cmd)
            if p.returncode != 0:
                raise RuntimeError("fixture: %r: %s" % (cmd, p.stderr[-500:]))
        for k in ("z1", "z2", "foo", "help", "wrap", "cz"):
            must(comp + ["-c", k + ".c"])
        must(["ar", "rcs", "libz1.a", "z1.o", "help.o"])
        must(["ar", "rcs", "libz2.a", "z2.o"])
        must(["ar", "rcs", "libfoo.a", "foo.o"])
        must(["ar", "rcs", "libwrap.a", "wrap.o"])
        must(comp + ["-fPIC", "-shared", "-o", "libso.so", "so.c", "-Wl,--unresolved-symbols=ignore-all"])
        parts = ["main.c", "a.c"]
        if c["form"] != "src" and c["fail"] != "syntax":
            for k in range(2 if c["form"] == "obj" else 1):
                must(comp + ["-c", parts[k]])
                parts[k] = parts[k].replace(".c", ".o")
        cmd = [c["cc"], "-w", "-pthread"] + c["cflags"] + parts
        if c["fail"] == "nofile":
            cmd.append("nonesuch.o")
        if c["fail"] == "badflag":
            cmd.append("--no-such-flag-at-all")
        if c["fail"] == "undef":
            with open(os.path.join(base, "u.c"), "w") as f:
                f.write("extern int nowhere(void); int u(void) { return nowhere(); }\n")
            cmd.append("u.c")
        cmd += ["-L.", "-lz2", "-lz1", "-Wl,--no-as-needed", "-lso", "-Wl,-rpath," + base, "-lfoo", "-lm", "-ldl", "-lpthread"]
        if c["fail"] == "nolib":
            cmd.append("-lnonesuch")
        n = run(cmd + ["-o", "app.native"])
        clients = ["-i", os.path.join(b.s, "c%d.o" % c["clients"])] if c["clients"] else []
        link = [b.monitor_link] + clients
        if c["wrap"]:
            link += ["-w", "foo"] + (["-u", "foo"] if "u" in c["wrap"] else []) + ["-i", "libwrap.a" if "u" in c["wrap"] else "wrap.o"]
        if c["clientz"]:
            link += ["-i", "cz.o"]
        if c["verbose"]:
            link.append("--verbose")
        m = run(link + cmd + ["-o", "app.mon"])
        ctx.runs += 1
        if c["fail"]:
            if n.returncode == 0:
                return      # the linker dropped the broken part
            ctx.expect(m.returncode != 0, "monitor-link succeeds when the compiler fails (%s)" % c["fail"])
            ctx.expect(not os.path.exists(os.path.join(base, "app.mon")), "a program in spite of the failure (%s)" % c["fail"])
            ctx.nontrivial = ["build/fail"]
            return
        if n.returncode != 0:
            raise RuntimeError("fixture: %s" % n.stderr[-500:])
        if not ctx.expect(m.returncode == 0, "the link fails: %r" % m.stderr[-300:]):
            return
        ctx.expect(b"warning" not in m.stderr or b"warning" in n.stderr, "link warnings: %r" % m.stderr[-300:])
        env = {"PATH": "/usr/bin:/bin"}
        rn = self.spawn([os.path.join(base, "app.native")], base, env, b"", base)
        rm = self.spawn([os.path.join(base, "app.mon")], base, env, b"", base)
        if rn is None:
            raise RuntimeError("fixture: the native program hangs")
        if not ctx.expect(rm is not None, "the linked program hangs"):
            return
        want = rn.out
        if c["wrap"]:
            lines = want.split(b"\n")
            for k in range(len(lines)):
                if lines[k].startswith((b"foo ", b"plain ")):
                    w = lines[k].split()
                    lines[k] = b"%s %d" % (w[0], int(w[1]) + 100)
            want = b"\n".join(lines)
        ctx.expect(rm.status == rn.status, "status %d, natively %d: %r" % (rm.status, rn.status, rm.err[-200:]))
        ctx.expect(rm.out == want, "output %r, expected %r" % (rm.out[-200:], want[-200:]))
        if c["clients"]:
            mine = [x for x in rm.cbs if x[2] == rm.pid]
            nth = sum(f[1] for f in c["feats"] if f[0] == "thread" and f[2] != "so") + (c["end"] == "texit")
            cnt = lambda w: len([x for x in mine if x[0] == w])
            ctx.expect(all(x[1] == c["clients"] for x in mine), "callbacks of another client")
            ctx.expect(cnt("init") == 1, "%d init_process" % cnt("init"))
            ctx.expect(cnt("fini") == 1, "%d fini_process" % cnt("fini"))
            ctx.expect(cnt("tinit") == nth, "%d init_thread, expected %d" % (cnt("tinit"), nth))
            nfin = nth + (c["end"] == "texit")
            ctx.expect(cnt("tfini") == nfin, "%d fini_thread, expected %d" % (cnt("tfini"), nfin))
        if c["clientz"]:
            p = os.path.join(base, "czlog")
            ctx.expect(os.path.exists(p) and open(p).read() == "8", "the client's init_library was not called")
        ctx.nontrivial = ["build/%s %s" % (c["cc"], c["form"])]


CHECK = Check()
