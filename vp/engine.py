"""Search engine: Hypothesis-driven generation over 8 workers, shrinking,
confirmation by replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = int(os.environ.get("VP_WORKERS", "8"))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def size_of(case):
    nops = sum(len(r) for r in case.get("rout", []))
    return (nops, len(case.get("gates", [])), len(canon(case)))


class Stop(Exception):
    pass


class Ctx:
    """What a check's judge() sees: run() executes one variant of the case."""

    def __init__(self, runner, timeout=None):
        self.runner = runner
        self.timeout = timeout
        self.runs = 0
        self.hang = False
        self.bad = []
        self.results = []
        self.nontrivial = None
        self.notes = {}

    def run(self, case, **over):
        c = dict(case)
        c.update(over)
        self.runs += 1
        r = self.runner.run(c, timeout=self.timeout)
        if r.timed_out:
            self.hang = True
        if r.lost:
            self.fail("runaway: the event log overflowed")
        self.results.append(r)
        return r

    def fail(self, msg):
        self.bad.append(msg)

    def expect(self, cond, msg):
        if not cond:
            self.bad.append(msg)
        return cond


def evaluate(check, runner, case, timeout=None):
    """Returns a Ctx with .bad (list of violation texts)."""
    ctx = Ctx(runner, timeout)
    check.judge(case, ctx)
    return ctx


def worker(check_mod, tier, build, wid, seed, q, found, deadline, budget):
    warnings.simplefilter("ignore")
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    from .runner import Runner, HarnessError
    check = importlib.import_module(check_mod).CHECK
    check.tier = tier
    st = {"evals": 0, "runs": 0, "nontriv": set(), "samples": [], "fails": [], "errors": [],
          "hangs": 0, "unstable": 0, "kinds": {}}
    runner = None
    try:
        runner = Runner(build, wid)
        check.build = build
        strat = check.strategy(tier)
        first_fail = [None]

        def body(case):
            now = time.time()
            if now > deadline:
                raise Stop()
            if first_fail[0] is not None and now > first_fail[0] + check.shrink_s:
                raise Stop()
            if found.is_set() and first_fail[0] is None:
                raise Stop()
            try:
                ctx = evaluate(check, runner, case)
            except HarnessError as e:
                st["errors"].append(str(e))
                if len(st["errors"]) > 20:
                    raise Stop()
                return
            st["evals"] += 1
            st["runs"] += ctx.runs
            if ctx.nontrivial is not None:
                h = hashlib.md5(canon(case).encode()).digest()[:10]
                if h not in st["nontriv"]:
                    st["nontriv"].add(h)
                    for k in (ctx.nontrivial if isinstance(ctx.nontrivial, (list, tuple, set)) else [ctx.nontrivial]):
                        st["kinds"][str(k)] = st["kinds"].get(str(k), 0) + 1
                    if len(st["samples"]) < 2 and len(canon(case)) < 3000:
                        st["samples"].append(case)
            if ctx.bad:
                if first_fail[0] is None:
                    first_fail[0] = now
                    found.set()
                st["fails"].append((case, ctx.bad[:5], ctx.hang))
                if ctx.hang:
                    st["hangs"] += 1
                    if st["hangs"] >= 3:
                        raise Stop()
                raise AssertionError(ctx.bad[0])

        @hseed(seed)
        @settings(max_examples=budget, database=None, deadline=None, print_blob=False,
                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                  report_multiple_bugs=False)
        @given(strat)
        def prop(case):
            body(case)

        try:
            prop()
        except Stop:
            pass
        except AssertionError:
            pass
        except BaseException as e:
            if not st["fails"] and type(e).__name__ not in ("Flaky", "FlakyFailure", "ExceptionGroup",
                                                            "BaseExceptionGroup"):
                if not isinstance(e, Stop):
                    st["errors"].append("".join(traceback.format_exception(e))[-3000:])
    except BaseException as e:
        st["errors"].append("".join(traceback.format_exception(e))[-3000:])
    finally:
        if runner is not None:
            runner.close()
    st["nontriv"] = list(st["nontriv"])
    q.put(st)


def confirm_worker(check_mod, tier, build, wid, case, times, timeout, q, stop):
    from .runner import Runner
    check = importlib.import_module(check_mod).CHECK
    check.tier = tier
    check.build = build
    n = bad = 0
    texts = []
    err = []
    try:
        runner = Runner(build, 100 + wid)
        for _ in range(times):
            if stop.is_set():
                break
            ctx = evaluate(check, runner, case, timeout)
            n += 1
            if ctx.bad:
                bad += 1
                texts = ctx.bad[:5]
                stop.set()
        runner.close()
    except BaseException as e:
        err.append(repr(e))
    q.put((n, bad, texts, err))


def confirm(check_mod, tier, build, case, timeout, times, nwork):
    q = mp.Queue()
    stop = mp.Event()
    ps = [mp.Process(target=confirm_worker, args=(check_mod, tier, build, w, case, times, timeout, q, stop))
          for w in range(nwork)]
    for p in ps:
        p.start()
    out = [q.get() for _ in ps]
    for p in ps:
        p.join()
    n = sum(o[0] for o in out)
    bad = sum(o[1] for o in out)
    texts = next((o[2] for o in out if o[2]), [])
    return n, bad, texts


def load_known():
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def write_replay(check, case, texts, extra):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (check.id, hashlib.md5(canon(case).encode()).hexdigest()[:10])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump({"property": check.id, "case": case, "violations": texts, **extra}, f, indent=1)
    return p


def run_check(cid, tier, replay=None, keep=False):
    from .build import Build, BuildError
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check_mod = "vp.checks.%s" % cid.lower()
    check = importlib.import_module(check_mod).CHECK
    check.tier = tier
    build = Build(keep=keep)
    try:
        build.lib()
        build.harness(check.modes)
        check.prepare(build)
    except Exception as e:
        build.close()
        print("BUILD-FAILED %s" % e, file=sys.stderr)
        return 2
    check.build = build
    try:
        if replay:
            case = json.load(open(replay))["case"]
            n, bad, texts = confirm(check_mod, tier, build, case, 30000, 25, 2)
            print("replay: %d of %d runs fail" % (bad, n))
            for t in texts:
                print("  " + t)
            if bad:
                print("VIOLATION property=%s replay=%s" % (cid, replay))
                return 1
            return 0
        return _search(check, check_mod, cid, tier, seed, build, t0)
    finally:
        build.close()


def _search(check, check_mod, cid, tier, seed, build, t0):
    secs, budget = check.quick if tier == "quick" else check.thorough
    secs = float(os.environ.get("VP_SECS", secs))
    deadline = time.time() + secs
    q = mp.Queue()
    found = mp.Event()
    ps = []
    for w in range(NWORK):
        ws = random.Random("%s/%s/%d/%d" % (cid, tier, seed, w)).getrandbits(48)
        p = mp.Process(target=worker, args=(check_mod, tier, build, w, ws, q, found, deadline,
                                            max(1, budget // NWORK)))
        p.start()
        ps.append(p)
    stats = [q.get() for _ in ps]
    for p in ps:
        p.join()
    evals = sum(s["evals"] for s in stats)
    runs = sum(s["runs"] for s in stats)
    nontriv = set()
    samples = []
    kinds = {}
    fails = []
    errors = []
    for s in stats:
        nontriv.update(s["nontriv"])
        samples += s["samples"][:1]
        fails += s["fails"]
        errors += s["errors"]
        for k, v in s["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    if evals == 0 or len(errors) > max(20, evals // 10):
        print("HARNESS-ERROR: %d errors in %d evaluations" % (len(errors), evals), file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 3
    for e in errors[:2]:
        print("note: harness error (ignored): %s" % e, file=sys.stderr)
    violation = None
    unconfirmed = 0
    if fails:
        # smallest failing cases first; each distinct one gets a chance to be confirmed
        hang_only = all(f[2] for f in fails)
        uniq = {}
        for c, texts, hang in fails:
            k = canon(c)
            if k in uniq:
                uniq[k][3] += 1
            else:
                uniq[k] = [c, texts, hang, 1]
        order = sorted(uniq.values(), key=lambda u: (u[2], size_of(u[0])))
        t_conf = time.time()
        for c, texts, hang, cnt in order[:12]:
            if time.time() - t_conf > 240:
                break
            n, bad, tx = confirm(check_mod, tier, build, c, 30000 if hang else 20000,
                                 2 if hang else 12, NWORK)
            if bad:
                violation = (c, tx or texts, {"reproduced": "%d of %d" % (bad, n), "seed": seed, "tier": tier})
                break
            if not hang and cnt >= 2:
                violation = (c, texts, {"reproduced": "0 of %d (but %d times in the search)" % (n, cnt),
                                        "seed": seed, "tier": tier})
                break
        if violation is None:
            nonhang = [u for u in order if not u[2]]
            if len(nonhang) >= 2:
                # a rare schedule: several different generated cases broke the property
                c, texts, hang, cnt = nonhang[0]
                violation = (c, texts, {"reproduced": "0 (seen in %d different cases)" % len(nonhang),
                                        "seed": seed, "tier": tier})
            else:
                unconfirmed = len(order)
                print("note: a failure could not be reproduced: %s" % "; ".join(order[0][1]), file=sys.stderr)
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                with open(os.path.join(ROOT, "replays", "unconfirmed-%s.json" % cid), "w") as f:
                    json.dump({"property": cid, "case": order[0][0], "violations": order[0][1]}, f)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(nontriv),
        "rule": check.rule,
        "samples": [check.show(c) for c in samples[:3]],
        "executions": runs,
        "case_classes": dict(sorted(kinds.items(), key=lambda kv: -kv[1])[:60]),
    }
    if unconfirmed:
        cov["unconfirmed_failures"] = unconfirmed
    if errors:
        cov["harness_errors"] = len(errors)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d executions), %d distinct non-trivial, %.1f s" % (
        cid, tier, evals, runs, len(nontriv), time.time() - t0))
    if violation:
        p = write_replay(check, violation[0], violation[1], violation[2])
        for t in violation[1]:
            print("  " + t)
        print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    return 0


class BaseCheck:
    id = "C00"
    modes = ["dyn"]
    quick = (30, 4000)
    thorough = (500, 400000)
    shrink_s = 20
    level = "exploration"
    rule = ""
    assumptions = []
    tier = "quick"
    build = None

    def prepare(self, build):
        """Fixtures in the scratch build directory."""

    def strategy(self, tier):
        raise NotImplementedError

    def judge(self, case, ctx):
        raise NotImplementedError

    def show(self, case):
        return case
