"""Process lifecycle bracket."""
from hypothesis import strategies as st

from .. import subset
from ..engine import BaseCheck
from ..gen import *
from ..oracle import by_pid, split_exec
from ..proto import *


@st.composite
def cases(draw):
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    cfg = {}
    early = mode == "dyn" and draw(st.integers(0, 5)) == 0
    if early:
        cfg["MAIN_EARLY"] = 1
        body = p.new([["RETURN", 5]])
        s = p.slot()
        if draw(st.booleans()):
            p.rout[1] += [create(s, p.arg(body)), ["JOIN", s]]
        else:
            p.rout[1] += [["SIGNAL", 10, 2], ["MASK", 0, 0, bit(12), 3], ["MASK", 0, 1, bit(12), 3]]
    if mode == "dyn" and draw(st.integers(0, 9)) == 0:
        cfg["INITIALIZE"] = 1
    if mode == "static" and draw(st.integers(0, 2)) == 0:
        # the application wraps main itself
        cfg["WRAPMAIN"] = draw(st.sampled_from([1, 1, 2, 3]))
        cfg["WRAPMAIN_ST"] = draw(st.integers(0, 255))
    n_at = draw(st.integers(0, 2)) if draw(st.booleans()) else 0
    for _ in range(n_at):
        k = draw(st.integers(0, 5))
        ops = [["MARK", 1]]
        if k == 0:
            ops.append(["EXIT", EX.exit, draw(st.integers(0, 255))])
        elif k == 1:
            ops.append(["EXIT", EX._exit, draw(st.integers(0, 255))])
        main.append(["ATEXIT", p.new(ops)])
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 6))
        if k == 0:
            s = p.slot()
            main += [create(s, p.arg(p.new([["RETURN", 3]]))), ["JOIN", s]]
        elif k == 1:
            main += [["SIGACTION", draw(st.sampled_from(ALL_SIGS)), 1, 0, 0, 1]]
        elif k == 2:
            main += [["MASK", draw(st.integers(0, 1)), 0, 0, 1]]
        elif k == 3:
            main += [["EXEC", draw(st.integers(0, 5)), "/nonexistent/prog", ["a"], 1, [], 0, 0]]
        elif k == 4:
            main += [["INITIALIZE"]]
        elif k == 5:
            main += [["RAISE", 0, draw(st.sampled_from(NOTERM_SIGS)), 0, 0]]
        else:
            main += [["MARK", 9]]
    route = draw(st.sampled_from(["return", "exit", "_exit", "_Exit", "pexit", "abort", "signal", "fault", "exec",
                                  "handler", "nested"]))
    status = draw(st.integers(0, 255))
    if route == "return":
        main.append(["RETURN", status])
    elif route in ("exit", "_exit", "_Exit"):
        main.append(["EXIT", getattr(EX, route), status])
    elif route == "pexit":
        main.append(["EXIT", EX.pexit, status])
    elif route == "abort":
        main += [["SIGACTION", 6, 0, 0, 0, 1], ["EXIT", EX.abort, 0]]
    elif route == "signal":
        sig = draw(st.sampled_from(TERM_SIGS + SYNC_SIGS))
        main.append(["SIGACTION", sig, 0, 0, 0, 1])
        main.append(["EXIT", draw(st.sampled_from([K["EX_raise"], EX.kill,
                                                   EX.tkill, EX.queue])), sig])
    elif route == "fault":
        k = draw(st.sampled_from(["segv", "fpe", "ill", "bus"]))
        main.append(["SIGACTION", {"segv": 11, "fpe": 8, "ill": 4, "bus": 7}[k], 0, 0, 0, 1])
        main.append(["EXIT", getattr(EX, k), 0])
    elif route == "exec":
        main.append(["EXEC", draw(st.integers(0, 5)), "@BIN@/vdump", ["vdump", "x"], 2, [], 0, 1])
    elif route == "handler":
        sig = draw(st.sampled_from([10, 12, 15, 40, 50, 11]))
        k = draw(st.sampled_from([EX.exit, EX._exit, EX._Exit]))
        h = p.new([["EXIT", k, status]])
        main.append(["SIGACTION", sig, draw(st.integers(2, 5)), draw(st.sampled_from([0, SA_RESTART, SA_NODEFER])),
                     draw(st.sampled_from([0, (1 << 64) - 1])), 1, h + 1])
        hk = main[-1][2]
        if hk >= 4:
            main[-1][3] |= SA_SIGINFO
        main.append(["RAISE", draw(st.integers(0, 4)) if sig != 11 else 8, sig, 0, 0])
    else:
        main.append(["CALL", p.new([["CALL", p.new([["EXIT", EX.exit, status]]), 1]]), 1])
    main.append(["MARK", 777])
    return p.case(mode, cfg=cfg, argv=draw(st.lists(st.text("abc -\"*", max_size=5), max_size=4)))


@st.composite
def again_cases(draw):
    """The process ends; while the client is told, the client (or code it calls) ends it again."""
    p = Prog()
    mode = draw(mode_st)
    main = p.rout[0]
    status, st2 = draw(st.integers(0, 255)), draw(st.integers(0, 255))
    side = draw(st.booleans())
    route = draw(st.sampled_from(["exit", "_exit", "_Exit", "abort", "signal", "segv", "fpe"] +
                                 ([] if side else ["return"])))
    first = {"return": ["RETURN", status], "abort": ["EXIT", EX.abort, 0],
             "signal": ["EXIT", K["EX_raise"], draw(st.sampled_from([10, 15, 40]))]}.get(
                 route, ["EXIT", getattr(EX, route) if hasattr(EX, route) else 0, status])
    kinds = ["exit", "_exit", "_Exit", "segv", "fpe", "ill"]
    if route in ("return", "exit", "_exit", "_Exit"):
        kinds += ["abort", "raise"]
    k2 = draw(st.sampled_from(kinds))
    if k2 in ("exit", "_exit", "_Exit"):
        second, exp = ["EXIT", getattr(EX, k2), st2], st2 << 8
    elif k2 == "raise":
        sig = draw(st.sampled_from([1, 12, 50]))
        second, exp = ["EXIT", K["EX_raise"], sig], sig
    elif k2 == "abort":
        second, exp = ["EXIT", EX.abort, 0], 6
    else:
        second, exp = ["EXIT", getattr(EX, k2), 0], {"segv": 11, "fpe": 8, "ill": 4}[k2]
    r = p.new([second])
    pt = draw(st.sampled_from(["begin_process_exit", "fini_process"]))
    g = gate(pt, nth=1, phase=draw(st.integers(0, 1)), what=GW.RUN | r << 8)
    if side:
        s = p.slot()
        main += [create(s, p.arg(p.new([first]))), ["JOIN", s]]
    else:
        main.append(first)
    main.append(["MARK", 777])
    return p.case(mode, gates=[g], timeout=15000,
                  meta={"again": [pt, k2, route, exp, int(side)]})


def check_image(ev, mode, ctx, first, argc=None, early=False, is_last=True):
    """The bracket of one image.  Returns its 'how' or None."""
    def cb(name, ty=T.CB_ENTER):
        return [e for e in ev if e.type == ty and e.code == getattr(CB, name)]
    dyn = mode != "static"
    for name in ("init_library", "start_main_init", "init_process", "at_main"):
        n = len(cb(name))
        ctx.expect(n == 1, "%s called %d times" % (name, n))
    app = [e for e in ev if e.type == T.MAIN and e.code == 0 or e.type == T.DUMP]
    if ctx.bad:
        return
    il, sm, ip, am = (cb(x)[0].i for x in ("init_library", "start_main_init", "init_process", "at_main"))
    ilx, smx, ipx, amx = (cb(x, T.CB_LEAVE)[0].i if cb(x, T.CB_LEAVE) else 1 << 30
                          for x in ("init_library", "start_main_init", "init_process", "at_main"))
    ctx.expect(ilx < ip, "init_process begins before init_library has finished")
    ctx.expect(ipx < am, "at_main begins before init_process has finished")
    ctx.expect(smx < am, "at_main begins before start_main_init has finished")
    if app:
        ctx.expect(amx < app[0].i, "main entered before at_main has finished")
        if argc is not None and not early:
            ctx.expect(cb("init_process")[0].a[0] == argc, "init_process saw argc %d, not %d" % (
                cb("init_process")[0].a[0], argc))
    b, f, l = cb("begin_process_exit"), cb("fini_process"), cb("fini_library")
    ctx.expect(len(b) == 1, "begin_process_exit called %d times" % len(b))
    ctx.expect(len(f) == 1, "fini_process called %d times" % len(f))
    if dyn:
        ctx.expect(len(l) == 1, "fini_library called %d times" % len(l))
    else:
        ctx.expect(len(l) == 0, "fini_library called in the static case")
    if ctx.bad:
        return None
    bx = cb("begin_process_exit", T.CB_LEAVE)
    fx = cb("fini_process", T.CB_LEAVE)
    ctx.expect(bx and bx[0].i < f[0].i, "fini_process begins before begin_process_exit has finished")
    ctx.expect(f[0].a[0] == b[0].a[0], "begin_process_exit and fini_process disagree on how")
    if dyn and fx:
        ctx.expect(fx[0].i < l[0].i, "fini_library begins before fini_process has finished")
    ctx.expect(bool(fx), "fini_process did not finish")
    return f[0].a[0]


class Check(BaseCheck):
    id = "C01"
    modes = ["dyn", "static"]
    quick = (30, 12000)
    rule = ("A case is a generated program (optional constructor phase, setup operations, atexit handlers) that "
            "leaves by one of eleven routes with a generated status or signal, run under LD_PRELOAD or linked "
            "statically; non-trivial: main was reached and the route was taken. Distinct by program text." + subset.RULE)
    assumptions = ["exit routes are taken by application code through the interfaces libmonitor overrides",
                   "programs reach main; abort() with a returning SIGABRT handler is excluded"]

    def prepare(self, build):
        subset.prepare(build)

    def strategy(self, tier):
        return subset.mixed(st.integers(0, 7).flatmap(lambda k: again_cases() if k == 0 else cases()))

    def judge_again(self, case, ctx):
        pt, k2, route, exp, side = case["meta"]["again"]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        n = {c: sum(1 for e in r.log if e.type == T.CB_ENTER and e.code == getattr(CB, c))
             for c in ("begin_process_exit", "fini_process", "fini_library", "init_process")}
        ctx.expect(n["begin_process_exit"] == 1, "begin_process_exit called %d times" % n["begin_process_exit"])
        ctx.expect(n["fini_process"] == 1 if pt == "fini_process" else n["fini_process"] <= 1,
                   "fini_process called %d times" % n["fini_process"])
        ctx.expect(n["fini_library"] <= 1, "fini_library called %d times" % n["fini_library"])
        ctx.expect(r.status == exp, "status %#x, expected %#x" % (r.status, exp))
        ctx.expect(not any(e.type == T.RES and e.code == OP.MARK and e.a[1] == 777 for e in r.log),
                   "the exit call returned to the application")
        ctx.nontrivial = ["again/%s/%s/%s/%s" % (case["mode"], pt, k2, "side" if side else "main")]

    def judge(self, case, ctx):
        if case.get("kind") == "subset":
            return subset.judge(case, ctx, self.build, ["once"])
        if "again" in case.get("meta", {}):
            return self.judge_again(case, ctx)
        main = case["rout"][0]
        r = ctx.run(case)
        if r.timed_out:
            ctx.fail("the process does not terminate")
            return
        evs = by_pid(r)
        if not ctx.expect(list(evs) == [r.main_pid], "events of unexpected processes %s" % list(evs)):
            return
        ims = split_exec(evs[r.main_pid])
        last = [o for o in main if o[0] in ("RETURN", "EXIT", "EXEC", "RAISE", "CALL")][-1]
        early = bool(case.get("cfg", {}).get("MAIN_EARLY") or case.get("cfg", {}).get("INITIALIZE"))
        how = check_image(ims[0], case["mode"], ctx, True, argc=1 + len(case.get("argv", [])), early=early)
        if ctx.bad:
            return
        wm = case.get("cfg", {}).get("WRAPMAIN", 0)
        w = [e for e in ims[0] if e.type == T.MAIN and e.code == 3]
        if not ctx.expect(len(w) == (1 if wm else 0), "the application's wrapper of main was entered %d times" % len(w)):
            return
        if wm:
            am = [e for e in ims[0] if e.type == T.CB_LEAVE and e.code == CB.at_main]
            ctx.expect(am and am[0].i < w[0].i, "the wrapper of main begins before at_main has finished")
            av = case.get("argv", [])
            ctx.expect(w[0].a[0] == 1 + len(av) and w[0].a[1] == 1 and w[0].a[2] == 1,
                       "the wrapper of main got %d arguments, not %d" % (w[0].a[0], 1 + len(av)))
            ctx.expect((r.cstr(w[0].a[3]) if w[0].a[3] >= 0 else b"") == (av[-1].encode() if av else b""), "the wrapper of main got other arguments")
        if wm == 3:
            ctx.expect(not any(e.type == T.MAIN and e.code == 0 for e in ims[0]), "main was entered")
            ctx.expect(how == EXIT_NORMAL, "how is %s" % how)
            ctx.expect(r.status == case["cfg"].get("WRAPMAIN_ST", 0) << 8, "status %#x" % r.status)
            ctx.nontrivial = ["static/wrapper exits"]
            return
        ctx.expect(not any(e.type == T.RES and e.code == OP.MARK and e.a[1] == 777 for e in ims[0]),
                   "the exit call returned to the application")
        execd = last[0] == "EXEC"
        if execd:
            ctx.expect(how == EXIT_EXEC, "how is %s, expected EXEC" % how)
            if case["mode"] == "dyn":
                if ctx.expect(len(ims) == 2, "the new program is not monitored"):
                    h2 = check_image(ims[1], "dyn", ctx, False)
                    if not ctx.bad:
                        ctx.expect(h2 == EXIT_NORMAL, "new program: how is %s" % h2)
            ctx.expect(any(e.type == T.DUMP for e in ims[-1]), "exec did not reach the new program")
            ctx.expect(r.status == 0, "status %#x after exec" % r.status)
        else:
            ctx.expect(len(ims) == 1, "callbacks of a second image")
            code, sig, how_x = 0, 0, EXIT_NORMAL
            if last[0] == "RETURN":
                code = last[1]
            elif last[0] == "EXIT":
                k, v = last[1], last[2]
                if k in (EX.exit, EX._exit, EX._Exit):
                    code = v
                elif k == EX.pexit:
                    code = 0
                elif k == EX.abort:
                    sig, how_x = 6, EXIT_SIGNAL
                elif k in (EX.segv, EX.fpe, EX.ill, EX.bus):
                    sig = {EX.segv: 11, EX.fpe: 8, EX.ill: 4, EX.bus: 7}[k]
                    how_x = EXIT_SIGNAL
                else:
                    sig, how_x = v, EXIT_SIGNAL
            elif last[0] == "RAISE":
                rt = [o for o in main if o[0] == "SIGACTION" and len(o) > 6][-1][6] - 1
                code = case["rout"][rt][0][2]
                k = case["rout"][rt][0][1]
            else:
                code = case["rout"][case["rout"][last[1]][0][1]][0][2]
            normal_exit = how_x == EXIT_NORMAL
            # atexit handlers run for exit() and return, and may change the status
            skip_at = False
            if last[0] == "EXIT" and last[1] in (EX._exit, EX._Exit):
                skip_at = True
            if last[0] == "RAISE" and k in (EX._exit, EX._Exit):
                skip_at = True
            ran = len([e for e in ims[0] if e.type == T.MARK_ATEXIT])
            ats = [case["rout"][o[1]] for o in main if o[0] == "ATEXIT"]
            if not normal_exit or skip_at:
                ctx.expect(ran == 0, "atexit handlers ran")
            else:
                exp = 0
                for a in reversed(ats):
                    exp += 1
                    if len(a) > 1:
                        code = a[1][2]
                        if a[1][1] == EX._exit:
                            break
                ctx.expect(ran == exp, "%d atexit handlers ran, expected %d" % (ran, exp))
            ctx.expect(how == how_x, "how is %s, expected %s" % (how, how_x))
            if sig:
                ctx.expect(r.sig == sig, "status %#x, expected death by signal %d" % (r.status, sig))
            else:
                ctx.expect(r.status == code << 8, "status %#x, expected exit %d" % (r.status, code))
            # nothing of the application or the client after the bracket closes
            stop = [e for e in ims[0] if e.type == T.CB_ENTER and e.code == CB.fini_process][0]
            for e in ims[0]:
                if e.i > stop.i and e.type == T.CB_ENTER and e.code not in (CB.fini_library,):
                    ctx.fail("callback %s after fini_process" % CB.name(e.code))
        if any(e.type == T.MAIN for e in ims[0]):
            ctx.nontrivial = ["%s/%s/%s" % (case["mode"], last[0], last[1] if last[0] == "EXIT" else "")]


CHECK = Check()
