"""Statically linked programs that use only some of the library's parts.

The linker takes only those members of libmonitor_wrap.a that the program's
calls need; the answers must be the same whatever it takes."""
import os
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from .proto import HARNESS

HEAD = """#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
extern void vs_ask(const char *, void *) __attribute__((weak));
#define ASK(t, ra) do { if (vs_ask) vs_ask(t, ra); } while (0)
int main(int argc, char **argv);
void *vs_main = (void *) main;
static void *mra;
static volatile int sink;
__attribute__((noinline)) static int deep(int n, const char *t, void *ra)
{ volatile char b[200]; b[n & 63] = n; if (n > 0) sink += deep(n - 1, t, ra); else ASK(t, ra); return b[n & 63]; }
"""


@st.composite
def ops(draw, where, depth):
    kinds = ["ask", "ask", "deep"]
    if where != "handler":
        kinds += ["sig", "mask", "system"]
        if depth < 2:
            kinds += ["fork"]
            if where != "thread":
                kinds += ["thread"]
    out = []
    for _ in range(draw(st.integers(0 if depth == 0 else 1, 4 if depth == 0 else 2))):
        k = draw(st.sampled_from(kinds))
        if k == "deep":
            out.append([k, draw(st.integers(1, 30))])
        elif k == "sig":
            out.append([k, draw(st.sampled_from([10, 12, 40]))])
        elif k in ("fork", "thread"):
            out.append([k, draw(ops("thread" if k == "thread" else where, depth + 1))])
        else:
            out.append([k])
    if depth:
        out.insert(0, ["ask"])
    return out


@st.composite
def subset_cases(draw):
    c = {"kind": "subset", "ops": draw(ops("main", 0))}
    c["end"] = draw(st.sampled_from(["return", "exit", "_exit", "_Exit", "abort", "term", "pexit", "texit"]))
    c["val"] = draw(st.integers(0, 255))
    c["static"] = draw(st.integers(0, 1))
    c["thr"] = draw(st.integers(0, 1))
    c["opt"] = draw(st.sampled_from(["-O0", "-O1", "-O2"]))
    return c


class Gen:
    def __init__(self):
        self.n = 0
        self.funs = ""
        self.want = {}      # tag -> (role, number, threaded, frame)
        self.roles = 1
        self.seq = {0: []}
        self.nthr = {0: 0}

    def tag(self, role, num, thr, frame):
        self.n += 1
        t = "q%d" % self.n
        self.want[t] = (role, num, thr, frame)
        self.seq[role].append(t)
        return t

    def body(self, ops, role, num, thr, frame):
        """C text; thr: one-element list, has the process created a thread."""
        ra = {"main": "mra", "thread": "ra", None: "(void *) deep"}[frame]
        s = ""
        for o in ops:
            if o[0] == "ask":
                s += 'ASK("%s", %s);\n' % (self.tag(role, num, thr[0], frame), ra)
            elif o[0] == "deep":
                s += 'deep(%d, "%s", %s);\n' % (o[1], self.tag(role, num, thr[0], frame), ra)
            elif o[0] == "sig":
                t = self.tag(role, num, thr[0], None)
                self.funs += 'static void h%s(int s) { ASK("%s", (void *) deep); }\n' % (t, t)
                s += "{ struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h%s; sigaction(%d, &a, NULL); raise(%d); }\n" % (t, o[1], o[1])
            elif o[0] == "mask":
                s += "{ sigset_t m; sigfillset(&m); sigprocmask(SIG_BLOCK, &m, NULL); sigprocmask(SIG_UNBLOCK, &m, NULL); }\n"
            elif o[0] == "system":
                s += 'if (system("exit 3") != 3 << 8) _exit(91);\n'
            elif o[0] == "fork":
                r = self.roles
                self.roles += 1
                self.seq[r] = []
                self.nthr[r] = 0
                sub = self.body(o[1], r, 0, [0], frame)
                s += "{ int st; pid_t p = fork(); if (p == 0) { %s %s(%d); } if (waitpid(p, &st, 0) != p || st != %d << 8) _exit(92); }\n" % (
                    sub, "exit" if r % 2 else "_exit", r, r)
            elif o[0] == "thread":
                self.nthr[role] += 1
                k = self.n
                thr[0] = 1
                sub = self.body(o[1], role, 1, thr, "thread")
                self.funs += "static void *t%d(void *a) { void *ra = __builtin_return_address(0); %s return a; }\n" % (k, sub)
                s += "{ pthread_t t; void *r; if (pthread_create(&t, NULL, t%d, &t) || pthread_join(t, &r) || r != &t) _exit(93); }\n" % k
        return s


def mixed(strategy, every=40):
    """Once in a while one of these programs."""
    return st.integers(0, every - 1).flatmap(lambda k: subset_cases() if k == every // 3 else strategy)


RULE = (" Once in a while a program generated as C text and linked through monitor-link, shared or fully static, that uses only some of "
        "the library's parts.")


def prepare(build):
    d = os.path.join(build.dir, "sub")
    os.mkdir(d)
    build.sub = d
    for k in (0, 1):
        subprocess.run(["gcc", "-O1", "-w", "-c", "-I" + os.path.join(build.inst, "include")] + ["-DTHREADS"] * k +
                       ["-o", os.path.join(d, "c%d.o" % k), os.path.join(HARNESS, "sclient.c")], check=True)


def judge(case, ctx, build, aspects):
    base = tempfile.mkdtemp(prefix="sub-", dir=ctx.runner.dir)
    try:
        _judge(case, ctx, build, aspects, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _judge(c, ctx, build, aspects, base):
    g = Gen()
    thr = [0]
    body = g.body(c["ops"], 0, 0, thr, "main")
    end, val = c["end"], c["val"]
    if end == "texit":
        thr[0] = 1
        g.nthr[0] += 1
        g.funs += "static void *tx(void *a) { exit(%d); }\n" % val
    text = {"return": "return %d;" % val, "exit": "exit(%d);" % val, "_exit": "_exit(%d);" % val, "_Exit": "_Exit(%d);" % val,
            "abort": "abort();", "term": "kill(getpid(), 15); for (;;) pause();", "pexit": "pthread_exit(NULL);",
            "texit": "{ pthread_t t; pthread_create(&t, NULL, tx, NULL); for (;;) pause(); }"}[end]
    status = {"abort": -6, "term": -15, "pexit": 0}.get(end, val)
    src = os.path.join(base, "a.c")
    with open(src, "w") as f:
        f.write(HEAD + g.funs + "int main(int argc, char **argv) {\nmra = __builtin_return_address(0);\n%s%s\nreturn 0; }\n" % (body, text))
    cmd = ["gcc", "-w", "-pthread", c["opt"], src] + ["-static"] * c["static"]
    exe = os.path.join(base, "a")
    p = subprocess.run([build.monitor_link, "-i", os.path.join(build.sub, "c%d.o" % c["thr"])] + cmd + ["-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ctx.runs += 1
    if p.returncode != 0:
        q = subprocess.run(cmd + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode != 0:
            raise RuntimeError("fixture: %s" % q.stdout[-500:])
        ctx.fail("the program does not link: %r" % p.stdout[-300:])
        return
    log = os.path.join(base, "log")
    try:
        r = subprocess.run([exe], cwd=base, env={"PATH": "/usr/bin:/bin", "VS_CBS": log}, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40, preexec_fn=nocore)
    except subprocess.TimeoutExpired:
        ctx.fail("the program does not end")
        return
    ctx.expect(r.returncode == status, "status %d, expected %d: %r" % (r.returncode, status, r.stderr[-200:]))
    procs = {}
    for line in (open(log).read().split("\n") if os.path.exists(log) else []):
        w = line.split()
        if w:
            procs.setdefault(int(w[1]), []).append(w)
    ctx.nontrivial = ["subset/%s/%s" % ("static" if c["static"] else "shared", "+".join(sorted({o[0] for o in c["ops"]})) or "none")]
    roles = {}
    for pid, ls in procs.items():
        q = next((g.want[w[0]][0] for w in ls if w[0] in g.want), 0)
        roles.setdefault(q, []).append(pid)
    if not ctx.expect(sorted(roles) == list(range(g.roles)) and all(len(v) == 1 for v in roles.values()),
                      "callbacks in %d processes, expected %d" % (len(procs), g.roles)):
        return
    for role, (pid,) in roles.items():
        proc(c, ctx, g, aspects, role, pid, procs[pid], thr[0])


def proc(c, ctx, g, aspects, role, pid, ls, threaded):
    tags = [w[0] for w in ls]
    who = "process %d" % role
    if "once" in aspects:
        want = ["init"] + (["atmain"] if role == 0 else []) + ["begin", "fini", "data"]
        got = [t for t in tags if t[0] != "q" and t != "tfini"]
        ctx.expect(got == want, "%s: callbacks %s, expected %s" % (who, got, want))
    if "thread" in aspects and c["thr"]:
        n = g.nthr[role] + (role == 0 and c["end"] == "texit")      # then the main thread too
        m = len([t for t in tags if t == "tfini"])
        ctx.expect(m == n, "%s: %d thread-fini, expected %d" % (who, m, n))
    q = [t for t in tags if t[0] == "q"]
    if not ctx.expect(q == g.seq[role], "%s: the program ran %s, expected %s" % (who, q, g.seq[role])):
        return
    cookie = 0x1000000 + pid
    for w in ls:
        t = w[0]
        if t == "data":
            if "data" in aspects:
                ctx.expect(int(w[2], 16) == cookie, "%s: process-fini got %s, process-init returned %x" % (who, w[2], cookie))
            continue
        first, num, data, isthr, addr, stack, ra, app = int(w[2]), int(w[3]), int(w[4], 16), int(w[5]), int(w[6]), int(w[7]), w[8], w[9]
        wnum, wthr, frame = 0, None, None
        if t in g.want:
            _, wnum, wthr, frame = g.want[t]
        elif t == "tfini" or role == 0 and c["end"] == "texit" and t in ("begin", "fini"):
            wnum = 0 if first else 1
        elif t in ("init", "atmain"):
            wthr = 0
        elif t in ("begin", "fini") and role == 0:
            wthr = threaded
        at = "%s, %s" % (who, t)
        if "id" in aspects:
            ctx.expect(num == 0 if wnum == 0 else num > 0, "%s: thread number %d" % (at, num))
            if wthr is not None:
                ctx.expect(isthr == wthr, "%s: is_threaded is %d" % (at, isthr))
            ctx.expect(addr == 1, "%s: wrong address of main" % at)
        if ("id" in aspects or "data" in aspects) and t != "init":
            want = cookie if wnum == 0 else 0x2000000 + num if c["thr"] else 0
            ctx.expect(data == want, "%s: user data %x, expected %x" % (at, data, want))
        if "stack" in aspects:
            ctx.expect(0 < stack < 8 << 20, "%s: stack bottom at distance %d" % (at, stack))
            ctx.expect(app == "0000", "%s: an application address is taken for a start function (%s)" % (at, app))
            if frame is not None:
                want = "1110" if frame == "main" else "1101"
                ctx.expect(ra == want, "%s: the outermost frame is seen as %s, expected %s" % (at, ra, want))
            else:
                ctx.expect(ra == "0000", "%s: an application address is taken for a start function (%s)" % (at, ra))


def nocore():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
