"""Threads the client ignores."""
from hypothesis import strategies as st

from ..engine import BaseCheck
from ..gen import *
from ..oracle import *
from ..proto import *

POINTS = ["init_thread", "fini_thread", "thread_pre_create", "thread_post_create", "real_pthread_create",
          "begin_process_exit", "setcancelstate"]
FULL = (1 << 64) - 1


def thread_ops(draw, p, meta, ign, depth, fl):
    """Body of a thread; ign: the thread itself is ignored."""
    ops, after = [], []
    dis = False
    for _ in range(draw(st.integers(1, 6) if depth == 0 else st.integers(0, 4))):
        k = draw(st.integers(0, 8))
        if k == 8:
            if ign:
                # nothing to block: allowed, without effect
                ops.append(draw(st.sampled_from([["BLOCKSD"], ["UNBLOCKSD"]])))
        elif k <= 1:
            on = draw(st.booleans())
            ops.append(["NEWTHREADS", int(on)])
            dis = not on
        elif k == 2:
            ops.append(["QUERY"])
        elif k == 3:
            ops.append(["NAP", draw(small_us())])
        elif len(meta["threads"]) < 10 and depth < 3:
            hint = draw(st.sampled_from([0, 0, HINT.IGNORE]))
            fail = draw(st.integers(0, 9)) == 0
            quiet = ign or dis
            cign = quiet or hint == HINT.IGNORE
            slot, r = p.slot(), p.new()
            end = draw(st.sampled_from(["return", "return", "pexit", "cancel"]))
            val = draw(st.integers(1, 1 << 30))
            sp = {"arg": p.arg(r), "ign": int(cign), "quiet": int(quiet), "end": end, "val": val, "slot": slot,
                  "fail": int(fail), "join": 0}
            meta["threads"].append(sp)
            body = thread_ops(draw, p, meta, cign, depth + 1, fl)
            cut = []
            if end == "return":
                body.append(["RETURN", val])
            elif end == "pexit":
                body.append(["PEXIT", val])
            else:
                f = p.flag()
                body = [["CSTATE", 1]] + body + [["CSTATE", 0], ["LIVE", draw(st.sampled_from(CANCEL_STYLES)), f]]
                cut = [["WAITLIVE", f, 1], ["CANCEL", slot]]
            p.rout[r] += body
            attr = draw(st.sampled_from([AT.null, AT.default, AT.stacksize, AT.guard, AT.stack]))
            ops.append(create(slot, sp["arg"], fn=draw(st.integers(0, 3)), attr=attr,
                              stack=draw(st.sampled_from([65536, 131072])),
                              hint=hint | (0x100 if fail else 0)))
            if fail:
                continue
            sp["join"] = 1
            tail = cut + [["JOIN", slot]]
            if draw(st.booleans()):
                ops += tail
            else:
                after += tail
    return ops + after


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    meta = {"threads": [], "live": [], "plan": "join"}
    main = p.rout[0]
    main += thread_ops(draw, p, meta, False, 0, None)
    cfg = {"STACKADD": draw(st.sampled_from([0, 0, 65536]))}
    plan = draw(st.sampled_from(["join", "main", "main", "ignored", "monitored"]))
    meta["plan"] = plan
    st_ = draw(st.integers(0, 255))
    meta["status"] = st_ << 8
    if plan == "join":
        main.append(["RETURN", st_])
    else:
        main.append(["NEWTHREADS", 1])
        unreach = False
        for _ in range(draw(st.integers(1, 4))):
            ign = draw(st.booleans()) if plan != "unreach" else True
            kind = draw(st.sampled_from(["dis", "hint"])) if ign else ""
            f = p.flag()
            body = []
            if ign and draw(st.integers(0, 2)) == 0:
                body.append(["KMASK", FULL])
                unreach = True
            body.append(["LIVE", draw(st.sampled_from([LV.nap, LV.pause, LV.poll, LV.cond, LV.spin])), f])
            slot = p.slot()
            sp = {"arg": p.arg(p.new(body)), "ign": int(ign), "slot": slot}
            meta["live"].append(sp)
            c = create(slot, sp["arg"], hint=HINT.IGNORE if kind == "hint" else 0)
            main += [["NEWTHREADS", 0], c, ["NEWTHREADS", 1]] if kind == "dis" else [c]
            main.append(["WAITLIVE", f, 1])
        k = draw(st.sampled_from(["exit", "_exit", "_Exit", "abort", "signal", "segv"]))
        if k in ("exit", "_exit", "_Exit"):
            ops = [["EXIT", getattr(EX, k), st_]]
        elif k == "abort":
            ops, meta["status"] = [["EXIT", EX.abort, 0]], 6
        elif k == "signal":
            sig = draw(st.sampled_from([1, 10, 15, 40]))
            ops, meta["status"] = [["EXIT", EX.tkill, sig]], sig
        else:
            ops, meta["status"] = [["EXIT", EX.segv, 0]], 11
        if plan == "main":
            main += ops
        else:
            slot = p.slot()
            sp = {"arg": p.arg(p.new(ops)), "ign": int(plan == "ignored"), "slot": slot}
            meta["live"].append(sp)
            c = create(slot, sp["arg"], hint=0)
            if plan == "ignored":
                if draw(st.booleans()):
                    main += [["NEWTHREADS", 0], c]
                else:
                    c[6] = HINT.IGNORE
                    main.append(c)
            else:
                main.append(c)
            main.append(draw(st.sampled_from([["JOIN", slot], ["LIVE", LV.pause, 0], ["LIVE", LV.nap, 0]])))
        if unreach and plan == "main" and all(t["ign"] for t in meta["live"]):
            # nothing to wait for: the exit must not poll at all
            cfg["VCLOCK"] = 1
    gates = draw(noise_gates(POINTS, 4))
    return p.case(mode, gates=gates, cfg=cfg, meta=meta, timeout=25000)


class Check(BaseCheck):
    id = "C07"
    modes = ["dyn", "static"]
    quick = (30, 8000)
    rule = ("A case is a generated tree of threads, each ignored by disabling new threads, by the client's answer in "
            "pre-create or because its creator is ignored, or monitored; with failing creations, cancellation, and "
            "process exits by main, monitored and ignored threads while others live (some of them unreachable). "
            "Non-trivial: at least one ignored thread ran. Distinct by program text.")
    assumptions = []

    def strategy(self, tier):
        return cases()

    def judge(self, case, ctx):
        meta = case["meta"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        ctx.expect(r.status == meta["status"], "status %#x, expected %#x" % (r.status, meta["status"]))
        pr = Proc(r.log)
        th = {t["arg"]: t for t in meta["threads"] + meta["live"]}
        starts = pr.starts()
        slots = {t["slot"]: t for t in meta["threads"]}
        nign = 0
        exiting = meta["plan"] != "join"
        for c, res, mid in pr.creates():
            t = th[c.a[1]]
            if res is None:
                if not exiting:
                    ctx.fail("a pthread_create did not return")
                continue
            names = [CB.name(e.code) for e in mid if e.type == T.CB_ENTER and e.code != CB.fini_thread]
            if t.get("quiet") or (t["ign"] and "quiet" not in t and not any(n for n in names)):
                ctx.expect(not names, "callbacks %s with new threads disabled" % names)
            elif t["ign"]:
                ctx.expect([n for n in names if n != "init_thread_support"] == ["thread_pre_create"],
                           "callbacks %s for an ignored thread" % names)
            else:
                ctx.expect([n for n in names if n != "init_thread_support"] ==
                           ["thread_pre_create", "reset_stacksize", "thread_post_create"] or
                           exiting and names[:1] != [],
                           "callbacks %s for a monitored thread" % names)
            if case["mode"] == "dyn" and t["ign"]:
                for e in mid:
                    if e.type == T.REAL and e.code == GP.real_pthread_create and e.a[2]:
                        ctx.expect(e.a[1] == c.a[2], "stack size of an ignored thread changed")
            if t.get("fail") and case["mode"] == "dyn":
                ctx.expect(res.a[1] == 11, "a failing creation returns %d" % res.a[1])
                ctx.expect(not starts.get(t["arg"]), "a thread whose creation failed started")
            elif not t.get("fail"):
                ctx.expect(res.a[1] == 0, "pthread_create returns %d" % res.a[1])
        for t in th.values():
            s = starts.get(t["arg"], [])
            if t in meta["threads"] and not (t["fail"] and case["mode"] == "dyn") and t["join"]:
                # (its creator may have been a thread whose creation failed)
                ctx.expect(len(s) <= 1, "start routine entered %d times" % len(s))
        for e in r.log:
            if e.type == T.RES and e.code == OP.JOIN and e.a[4] in slots:
                t = slots[e.a[4]]
                if not ctx.expect(e.a[1] == 0, "pthread_join returns %d" % e.a[1]):
                    continue
                if t["end"] == "cancel":
                    ctx.expect(e.a[3] == 1, "a cancelled thread is joined with %#x" % e.a[2])
                else:
                    ctx.expect(e.a[2] == t["val"], "joined with %#x, not %#x" % (e.a[2], t["val"]))
        fi = pr.cb("fini_process")
        bi = pr.cb("begin_process_exit")
        ctx.expect(len(fi) == 1 and len(bi) == 1, "%d begin_process_exit, %d fini_process" % (len(bi), len(fi)))
        for kt, evs in pr.kt.items():
            s = next((e for e in evs if e.type == T.START), None)
            ini = thread_calls(evs, "init_thread")
            fin = thread_calls(evs, "fini_thread")
            if kt == r.main_pid:
                side = exiting and meta["plan"] in ("ignored", "monitored")
                ctx.expect(len(fin) == (1 if side else 0), "%d fini_thread in the main thread" % len(fin))
                continue
            if s is None:
                continue
            t = th[s.a[0]]
            if t["ign"]:
                nign += 1
                ctx.expect(not ini and not fin, "thread callbacks in an ignored thread")
                for e in evs:
                    if e.mt != -9 and not ctx.expect(e.mt == -1, "an ignored thread has number %d" % e.mt):
                        break
                ctx.expect(s.a[2] == -1 and s.a[1] == 0, "an ignored thread has a start routine or user data")
                for e in evs:
                    if e.type == T.RES and e.code == OP.QUERY:
                        ctx.expect(e.a[1] == -1 and e.a[2] == 0 and e.a[4] == -2,
                                   "an ignored thread has an identity")
                    if e.type == T.CB_ENTER and CB.name(e.code) not in ("begin_process_exit", "fini_process",
                                                                        "fini_library"):
                        ctx.fail("%s in an ignored thread" % CB.name(e.code))
            else:
                ctx.expect(len(ini) == 1 and ini[0][1] is not None and ini[0][1].i < s.i,
                           "a monitored thread got %d init_thread" % len(ini))
                ctx.expect(len(fin) == 1, "a monitored thread got %d fini_thread" % len(fin))
                if fin and fi:
                    ctx.expect(fin[0][1] is not None and fin[0][1].i < fi[0].i,
                               "fini_process before a fini_thread")
        if exiting and fi:
            ex = next((e for e in r.log if e.type == T.OP and e.code == OP.EXIT), None)
            ctx.expect(ex is not None and fi[0].kt == ex.kt == bi[0].kt, "exit callbacks in another thread")
        if case.get("cfg", {}).get("VCLOCK"):
            n = sum(e.a[0] for e in r.log if e.type == T.SLEEP) / 1e6
            ctx.expect(n < 2, "the exit waited for ignored threads (%.1f s)" % n)
        if nign:
            ctx.nontrivial = ["%s/%s" % (case["mode"], meta["plan"])]
            if any(t["ign"] == 0 for t in th.values()):
                ctx.nontrivial.append("mixed")
            if case.get("cfg", {}).get("VCLOCK"):
                ctx.nontrivial.append("unreachable ignored at exit")


CHECK = Check()
