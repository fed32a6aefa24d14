"""Forked children are monitored processes of their own."""
from ..engine import BaseCheck
from ..tree import *


class Check(BaseCheck):
    id = "C08"
    modes = ["dyn", "static"]
    quick = (40, 8000)
    rule = ("A case is a generated tree of processes: forks and vforks from main, from threads, from signal handlers "
            "and from exit handlers, with threads, system() and further forks in every process, injected fork and "
            "thread creation failures and random delays. Non-trivial: at least one child ran. Distinct by program "
            "text.")
    assumptions = ["vfork children may do more than exec because the library turns vfork into fork",
                   "a child forked inside exit() or a handler leaves by an explicit exit"]

    def strategy(self, tier):
        return tree_cases()

    def judge(self, case, ctx):
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("a process does not terminate")
            return
        om = opmap(case)
        procs = tree(r)
        fk = forks(procs)
        dyn = case["mode"] == "dyn"
        kids = case["meta"]["kids"]
        ctx.expect(r.status == case["meta"]["status"], "status of the first process %#x" % r.status)
        sysk = set()
        tags = set()
        # the parents' side
        for pid, ims in procs.items():
            pr = Proc(ims[0])
            for kt, evs in pr.kt.items():
                for code in (OP.FORK, OP.SYSTEM):
                    cs, pend = calls(evs, code)
                    for o, res, mid in cs:
                        if code == OP.FORK and res.a[1] == 0:
                            continue
                        pre = [e for e in mid if e.type == T.CB_ENTER and e.code == CB.pre_fork]
                        post = [e for e in mid if e.type == T.CB_ENTER and e.code == CB.post_fork]
                        real = [e for e in mid if e.type == T.REAL and e.code == GP.real_fork]
                        if not ctx.expect(len(pre) == 1 and len(post) == 1,
                                          "%d pre_fork and %d post_fork around one %s" % (
                                              len(pre), len(post), OP.name(code))):
                            continue
                        if real:
                            ctx.expect(pre[0].i < real[0].i < post[0].i, "fork callbacks out of order")
                        if code == OP.FORK:
                            ctx.expect(post[0].a[0] == res.a[1], "post_fork got pid %d, fork returned %d" % (
                                post[0].a[0], res.a[1]))
                            if res.a[1] < 0:
                                tags.add("failed fork")
                                ctx.expect(res.a[2] == 11, "errno %d after a failed fork" % res.a[2])
                        elif post[0].a[0] > 0:
                            sysk.add(post[0].a[0])
                # none elsewhere
                n = len([e for e in evs if e.type == T.CB_ENTER and e.code == CB.pre_fork])
                f = len([e for e in evs if e.type == T.OP and e.code in (OP.FORK, OP.SYSTEM)])
                ctx.expect(n <= f, "pre_fork without a fork")
        # the children's side
        nkids = 0
        for pid, ims in procs.items():
            if pid == r.main_pid:
                main = True
            elif pid in fk:
                main = False
            elif pid in sysk or len(ims[0]) and ims[0][0].type == T.CB_ENTER and \
                    ims[0][0].code in (CB.init_library, CB.start_main_init):
                continue            # a shell
            else:
                ctx.fail("events of a process that no fork returned")
                continue
            ev = ims[0]
            pr = Proc(ev)
            if not main:
                nkids += 1
                ppid, kt, o, res, mid = fk[pid]
                tags.add("thread" if kt != ppid else "main")
                ip = pr.cb("init_process")
                if not ctx.expect(len(ip) == 1, "init_process called %d times in a child" % len(ip)):
                    continue
                ctx.expect(ev[0].i == ip[0].i, "a child's first event is not init_process")
                ret = [e for e in ev if e.type == T.RES and e.code == OP.FORK and e.a[1] == 0]
                out = pr.cb("init_process", T.CB_LEAVE)
                if ctx.expect(len(ret) >= 1 and out, "fork did not return in the child"):
                    ctx.expect(out[0].i < ret[0].i, "fork returned before init_process was done")
                for name in ("init_library", "start_main_init", "at_main"):
                    ctx.expect(not pr.cb(name), "%s in a forked child" % name)
                thr = next((e.i for e in ev if e.type == T.OP and e.code == OP.CREATE), 1 << 60)
                done = next((e.i for e in ev if e.type == T.RES and e.code == OP.CREATE), 1 << 60)
                for e in pr.kt.get(pid, []):
                    if e.code == CB.fini_process and e.type == T.CB_LEAVE:
                        break       # thread specifics may be gone after that
                    if e.mt != -9 and not ctx.expect(e.mt == 0, "the caller of fork has number %d in the child" % e.mt):
                        break
                    if e.type == T.RES and e.code == OP.QUERY:
                        if e.i < thr:
                            ctx.expect(e.a[3] == 0, "is_threaded in a child without threads")
                        elif e.i > done:
                            ctx.expect(e.a[3] == 1, "not is_threaded in a child with threads")
            b, f, l = pr.cb("begin_process_exit"), pr.cb("fini_process"), pr.cb("fini_library")
            who = "first process" if main else "child"
            ctx.expect(len(b) == 1, "begin_process_exit called %d times in a %s" % (len(b), who))
            ctx.expect(len(f) == 1, "fini_process called %d times in a %s" % (len(f), who))
            if b and f:
                ctx.expect(b[0].i < f[0].i, "fini_process before begin_process_exit")
                ctx.expect(b[0].a[0] == f[0].a[0], "how differs")
            ctx.expect(len(l) == (1 if dyn else 0), "fini_library called %d times in a %s" % (len(l), who))
            if l and f:
                ctx.expect(f[0].i < l[0].i, "fini_library before fini_process")
            check_threads(pr, ctx, pid)
            tids = [e.a[0] for e in pr.cb("init_thread")]
            ctx.expect(len(tids) == len(set(tids)) and all(x > 0 for x in tids), "thread numbers %s in a %s" % (
                tids, who))
            for e in ev:
                if e.type == T.RES and e.code == OP.JOIN and e.a[1] > 0:
                    ctx.fail("join failed with %d in a %s" % (e.a[1], who))
                if e.type == T.RES and e.code == OP.WAITCHILD and e.a[1] > 0:
                    k = fk.get(e.a[1])
                    if k is None:
                        continue
                    exp = kids[str(om[k[2].a[0]][1][3])]
                    ctx.expect(e.a[2] == exp, "status of a child is %#x, expected %#x" % (e.a[2], exp))
                    if ctx.bad:
                        break
        if nkids:
            ctx.nontrivial = ["%s/%s" % (case["mode"], "+".join(sorted(tags)))]


CHECK = Check()
