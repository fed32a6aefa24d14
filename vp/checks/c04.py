"""Client data: every cookie goes where it belongs and nowhere else."""
from hypothesis import strategies as st

from .. import subset
from ..engine import BaseCheck
from ..tree import *
from . import c02

CBS = ["thread_pre_create", "thread_post_create", "init_thread", "fini_thread", "real_pthread_create",
       "reset_stacksize", "pre_fork", "post_fork", "real_fork", "init_process"]


@st.composite
def storms(draw):
    """Several threads create threads and fork at the same time."""
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    go = p.flag()
    kids = {}
    npid = 0
    slots = []
    cfg = {"RETDATA": draw(RETDATA)} if draw(st.integers(0, 2)) == 0 else {}
    for _ in range(draw(st.integers(2, 5))):
        body = [["WAITF", go, 1]]
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.integers(0, 5))
            if k <= 3:
                r = p.new([["QUERY"], ["NAP", draw(small_us())], ["QUERY"],
                           draw(st.sampled_from([["RETURN", 3], ["PEXIT", 3]]))])
                s = p.slot()
                at = draw(st.sampled_from([AT.null, AT.default, AT.stacksize, AT.detached]))
                hint = draw(st.sampled_from([0, 0, 0, 0x100]))
                body.append(create(s, p.arg(r), fn=draw(st.integers(0, 3)), attr=at, stack=131072, hint=hint))
                if at != AT.detached:
                    body.append(["JOIN", s])
            elif k == 4:
                r = p.new([["QUERY"], ["EXIT", draw(st.sampled_from([EX.exit, EX._exit])), 5]])
                kids[str(r)] = 5 << 8
                body += [["FORK", npid, draw(st.integers(0, 1)), r], ["WAITCHILD", npid]]
                npid += 1
            else:
                body.append(["QUERY"])
        body.append(["RETURN", 1])
        s = p.slot()
        main.append(create(s, p.arg(p.new(body))))
        slots.append(s)
    main += [["SETF", go]] + [["JOIN", s] for s in slots] + [["QUERY"], ["RETURN", 0]]
    gates = draw(noise_gates(CBS, 4, 2000))
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        gates.append(gate("real_fork", nth=draw(st.integers(1, 3)), what=GW.FAIL))
    return p.case(mode, cfg=cfg, gates=gates, meta={"kids": kids, "status": 0, "storm": 1})


def with_ret(x):
    case, ret = x
    if ret:
        case.setdefault("cfg", {})["RETDATA"] = ret
    return case


class Check(BaseCheck):
    id = "C04"
    modes = ["dyn", "static"]
    quick = (35, 9000)
    rule = ("A case is a generated program of threads and processes (process trees, thread trees with every way to "
            "end, or several threads creating and forking at once), with injected failures and delays; the client "
            "returns a fresh value from every callback, or what it was given, or values that look special (NULL, 1, -1). Non-trivial: at least two "
            "values had to be told apart. Distinct by program text." + subset.RULE)
    assumptions = ["the value from thread-pre-create is never (void *) -1, which asks the library to ignore the thread"]

    def prepare(self, build):
        subset.prepare(build)

    def strategy(self, tier):
        return subset.mixed(st.one_of(tree_cases(True), st.tuples(c02.cases(), st.one_of(st.just(0), RETDATA)).map(with_ret), storms()))

    def judge(self, case, ctx):
        if case.get("kind") == "subset":
            return subset.judge(case, ctx, self.build, ["data"])
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("a process does not terminate")
            return
        procs = tree(r)
        fk = forks(procs)
        nval = 0
        tags = set()
        skip = set()
        forkdata = {}
        for pid, ims in procs.items():
            pr = Proc(ims[0])
            for kt, evs in pr.kt.items():
                for code in (OP.FORK, OP.SYSTEM):
                    cs, pend = calls(evs, code)
                    for o, res, mid in cs:
                        if code == OP.FORK and res.a[1] == 0:
                            continue
                        pre = [e for e in mid if e.type == T.CB_LEAVE and e.code == CB.pre_fork]
                        post = [e for e in mid if e.type == T.CB_ENTER and e.code == CB.post_fork]
                        if not ctx.expect(len(pre) == 1 and len(post) == 1, "fork callbacks missing"):
                            continue
                        nval += 1
                        ctx.expect(post[0].a[1] == pre[0].a[0], "post_fork got %#x, pre_fork returned %#x" % (
                            post[0].a[1], pre[0].a[0]))
                        if code == OP.FORK:
                            ctx.expect(post[0].a[0] == res.a[1], "post_fork got pid %d, fork returned %d" % (
                                post[0].a[0], res.a[1]))
                            forkdata[res.a[1]] = pre[0].a[0]
                            tags.add("fork" if res.a[1] > 0 else "failed fork")
                        else:
                            skip.add(post[0].a[0])
        for pid, ims in procs.items():
            if pid in skip or pid != r.main_pid and pid not in fk:
                continue
            pr = Proc(ims[0])
            ipe = pr.cb("init_process")
            ipl = pr.cb("init_process", T.CB_LEAVE)
            if not ctx.expect(len(ipe) == 1 and len(ipl) == 1, "init_process called %d times" % len(ipe)):
                continue
            want = 0 if pid == r.main_pid else forkdata.get(pid)
            if want is not None:
                ctx.expect(ipe[0].a[2] == want, "init_process got %#x, expected %#x" % (ipe[0].a[2], want))
            cookie = ipl[0].a[0]
            for e in pr.cb("fini_process"):
                ctx.expect(e.a[1] == cookie, "fini_process got %#x, init_process returned %#x" % (e.a[1], cookie))
            fin = [e.i for e in pr.cb("fini_process", T.CB_LEAVE)]
            self.queries(ctx, pr.kt.get(pid, []), ipl[0].i, min(fin) if fin else 1 << 60, cookie, "the main thread")
            nval += 1
            # creations
            first = {}
            for kt, evs in pr.kt.items():
                for e in evs:
                    if e.type == T.START:
                        first[(e.a[0], e.i)] = kt
            used = set()
            for o, res, mid in pr.creates():
                pre = [e for e in mid if e.type == T.CB_LEAVE and e.code == CB.thread_pre_create]
                post = [e for e in mid if e.type == T.CB_ENTER and e.code == CB.thread_post_create]
                if res is None:
                    continue
                if not ctx.expect(len(pre) == 1 and len(post) == 1, "%d pre_create and %d post_create" % (
                        len(pre), len(post))):
                    continue
                nval += 1
                ctx.expect(post[0].a[0] == pre[0].a[0], "post_create got %#x, pre_create returned %#x" % (
                    post[0].a[0], pre[0].a[0]))
                if res.a[1]:
                    tags.add("failed create")
                    used.add(pre[0].a[0])
                    continue
                st_ = [(i, kt) for (a, i), kt in first.items() if a == o.a[1] and i > pre[0].i]
                if not st_:
                    continue
                kt = min(st_)[1]
                used.add(pre[0].a[0])
                self.thread(ctx, pr.kt[kt], pre[0].a[0])
                tags.add("thread")
            if not case.get("cfg", {}).get("RETDATA"):
                for kt, evs in pr.kt.items():
                    for e in evs:
                        if e.type == T.CB_ENTER and e.code == CB.init_thread and kt != pid:
                            nval += 1
        if nval >= 2:
            ctx.nontrivial = ["%s%s/%s" % (case["mode"], "/retdata" if case.get("cfg", {}).get("RETDATA") else "",
                                           "+".join(sorted(tags)))]

    def thread(self, ctx, evs, data):
        ini = thread_calls(evs, "init_thread")
        fin = thread_calls(evs, "fini_thread")
        if not ini or ini[0][1] is None:
            return
        ctx.expect(ini[0][0].a[1] == data, "init_thread got %#x, pre_create returned %#x" % (ini[0][0].a[1], data))
        cookie = ini[0][1].a[0]
        for e, _ in fin:
            ctx.expect(e.a[0] == cookie, "fini_thread got %#x, init_thread returned %#x" % (e.a[0], cookie))
        self.queries(ctx, evs, ini[0][1].i, fin[0][1].i if fin and fin[0][1] else 1 << 60, cookie, "a thread")

    def queries(self, ctx, evs, lo, hi, cookie, who):
        for e in evs:
            if not lo < e.i < hi:
                continue
            v = None
            if e.type == T.CB_ENTER and e.code != CB.fini_library:
                v = e.a[3]
            elif e.type == T.RES and e.code == OP.QUERY:
                v = e.a[2]
            elif e.type == T.START:
                v = e.a[1]
            if v is not None and not ctx.expect(v == cookie, "user data of %s is %#x, expected %#x" % (who, v, cookie)):
                return


CHECK = Check()
