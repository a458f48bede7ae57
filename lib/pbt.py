"""Runner shared by every check.

A check is a list of Sub objects.  Each Sub has a Hypothesis strategy whose
values are plain JSON data, and a test function of (context, case) that raises
Fail when the property does not hold for the case.  A failing case is shrunk by
Hypothesis, confirmed three times against fresh processes and written to a
replay file that `check.py --replay FILE` runs without the library.
"""
import hashlib, json, multiprocessing as mp, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """The property does not hold for this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted; never a verdict)."""


class StopNow(BaseException):
    """Ends a Hypothesis run (time cap, or shrinking took long enough)."""


class Sub:
    name = "?"
    weight = 1            # share of workers
    quick, thorough = 200, 4000   # cases per worker and per tier
    examples = ()         # fixed cases run before generation

    def strategy(self):
        raise NotImplementedError

    def test(self, ctx, case):
        """Raises Fail; returns an iterable of labels (truthy = non-trivial)."""
        raise NotImplementedError

    def show(self, case):
        return json.dumps(case, ensure_ascii=True)[:1500]

    def setup(self, ctx):
        pass

    def teardown(self, ctx):
        pass


class Ctx:
    """Per-process context: product paths, tier, lazily created installs."""

    def __init__(self, prod, tier, seed):
        self.prod, self.tier, self.seed = prod, tier, seed
        self.insts = {}
        self.srv = {}

    def inst(self, rules=None, reporters=("VerifReporter",), preload=True, tag=""):
        import oc
        k = (None if rules is None else tuple(sorted(rules)), tuple(reporters), preload, tag)
        if k not in self.insts:
            i = oc.Inst(self.prod, rules, reporters, preload)
            self.insts[k] = i
            i.s = i.server()
        return self.insts[k]

    def close(self):
        for i in self.insts.values():
            i.close()
        self.insts = {}


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def _digest(case):
    return hashlib.sha1(canon(case).encode()).digest()[:10]


SHRINK = float(os.environ.get("VERIF_SHRINK", "75"))       # seconds


def run_sub(sub, ctx, n, seed, deadline, shrink_s=SHRINK):
    """One worker's share of one sub-property."""
    import hypothesis as H
    from hypothesis import HealthCheck, Phase
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    # copying parts of a case to other parts makes little but repetitions of the generated byte strings
    ConjectureRunner.generate_mutations_from = lambda self, data: None
    passed = set()
    st = {"runs": 0, "nontrivial": set(), "labels": {}, "discards": 0, "samples": [],
          "fail": None, "capped": False, "sub": sub.name}
    first_fail = [None]

    def one(case):
        now = time.time()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise StopNow()
        if now > deadline:
            st["capped"] = True
            raise StopNow()
        dig = _digest(case)
        if dig in passed:
            return
        st["runs"] += 1
        try:
            labels = sub.test(ctx, case)
        except Discard:
            st["discards"] += 1
            return
        except Fail as f:
            if first_fail[0] is None:
                first_fail[0] = now
            size = len(canon(case))
            if st["fail"] is None or size <= st["fail"]["size"]:
                st["fail"] = {"case": case, "why": str(f), "size": size}
            raise
        passed.add(dig)
        labels = [x for x in (labels or ()) if x]
        if labels:
            st["nontrivial"].add(dig)
            for x in labels:
                st["labels"][x] = st["labels"].get(x, 0) + 1
            k = len(st["nontrivial"])
            if k in (1, 7, 31, 101) and len(st["samples"]) < 4:
                st["samples"].append(sub.show(case))

    sub.setup(ctx)
    try:
        for ex in sub.examples:
            try:
                one(ex)
            except Fail:
                return st
        if n > 0:
            s = H.settings(max_examples=n, database=None, deadline=None, derandomize=False,
                           report_multiple_bugs=False, print_blob=False,
                           phases=[Phase.generate, Phase.shrink],
                           suppress_health_check=list(HealthCheck))
            t = H.seed(seed)(s(H.given(sub.strategy())(one)))
            t()
    except StopNow:
        pass
    except Fail:
        pass
    except BaseException as x:
        # Hypothesis wraps some outcomes (Flaky); a recorded Fail decides
        if st["fail"] is None:
            raise
    finally:
        sub.teardown(ctx)
    return st


def _worker(mod, prod, tier, seed, plan, deadline, q):
    sys.stdout = sys.stderr
    ctx = Ctx(prod, tier, seed)
    try:
        subs = {s.name: s for s in mod.subs(tier)}
        for name, n, sd in plan:
            st = run_sub(subs[name], ctx, n, sd, deadline)
            q.put(("stat", st))
            if st["fail"]:
                break
    except BaseException:
        q.put(("error", traceback.format_exc()))
    finally:
        try:
            ctx.close()
        except Exception:
            pass
        q.put(("end", None))


def confirm(mod, prod, tier, seed, subname, case, times=3):
    """The case must fail every time, in fresh processes."""
    why = None
    for _ in range(times):
        ctx = Ctx(prod, tier, seed)
        try:
            sub = {s.name: s for s in mod.subs(tier)}[subname]
            sub.setup(ctx)
            try:
                sub.test(ctx, case)
                return None
            except Discard:
                return None
            except Fail as f:
                why = str(f)
            finally:
                sub.teardown(ctx)
        finally:
            ctx.close()
    return why


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def main(mod, pid, tier, seed):
    t0 = time.time()
    import build as B
    prod = B.product(**mod.NEEDS)
    tb = time.time() - t0
    subs = mod.subs(tier)
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    cap = 420 if tier == "quick" else 5400
    deadline = time.time() + cap
    q = mp.Queue()
    procs = []
    for w in range(workers):
        plan = []
        k = w % len(subs)
        order = subs[k:] + subs[:k]
        for s in order:
            n = s.quick if tier == "quick" else s.thorough
            sd = int.from_bytes(hashlib.sha256(f"{pid}/{s.name}/{seed}/{w}".encode()).digest()[:8], "big")
            plan.append((s.name, n, sd))
        p = mp.Process(target=_worker, args=(mod, prod, tier, seed, plan, deadline, q), daemon=True)
        p.start()
        procs.append(p)
    stats, errors, ended, fails = [], [], 0, []
    t_first = None
    while ended < workers:
        try:
            kind, x = q.get(timeout=5)
        except Exception:
            if t_first and time.time() - t_first > 100:
                break
            if all(not p.is_alive() for p in procs):
                break
            continue
        if kind == "stat":
            stats.append(x)
            if x["fail"]:
                fails.append((x["sub"], x["fail"]))
                t_first = t_first or time.time()
                if len(fails) >= 1:
                    # give the others a moment, then stop
                    t_first = min(t_first, time.time() - 90)
                if not SHRINK:
                    break
        elif kind == "error":
            errors.append(x)
        else:
            ended += 1
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(10)
    # verdicts
    violations, flaky = [], []
    fails.sort(key=lambda f: f[1]["size"])
    seen = set()
    for subname, f in fails:
        if subname in seen:
            continue
        why = confirm(mod, prod, tier, seed, subname, f["case"])
        if why is None:
            flaky.append({"sub": subname, "case": f["case"], "why": f["why"]})
            continue
        seen.add(subname)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(canon(f["case"]).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{pid}-{subname}-{h}.json")
        sub = {s.name: s for s in mod.subs(tier)}[subname]
        with open(path, "w") as fh:
            json.dump({"property": pid, "sub": subname, "tier": tier, "seed": seed, "why": why,
                       "case": f["case"], "shown": sub.show(f["case"])}, fh, indent=1)
        violations.append((path, subname, why))
    # evidence
    nontriv, labels, runs, disc, samples = {}, {}, {}, 0, []
    for s in stats:
        nontriv.setdefault(s["sub"], set()).update(s["nontrivial"])
        runs[s["sub"]] = runs.get(s["sub"], 0) + s["runs"]
        disc += s["discards"]
        for k, v in s["labels"].items():
            labels[s["sub"] + ":" + k] = labels.get(s["sub"] + ":" + k, 0) + v
    for name in runs:
        got = [x for s in stats if s["sub"] == name for x in s["samples"]]
        samples += [{"sub": name, "case": x} for x in got[:3]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(runs.values()),
                       "distinct_nontrivial": sum(len(v) for v in nontriv.values()),
                       "rule": mod.RULE,
                       "samples": samples[:12] or ["none"],
                       "per_sub": {k: {"evaluations": runs[k], "distinct_nontrivial": len(nontriv[k])} for k in runs},
                       "labels": dict(sorted(labels.items())),
                       "discarded": disc,
                       "capped": any(s["capped"] for s in stats),
                       "unreproducible": flaky,
                       "build_s": round(tb, 1)},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{disc} discarded, build {tb:.1f}s, total {ev['wall_s']}s")
    for path, subname, why in violations:
        print(f"  [{subname}] {why[:3000]}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        return 1
    if errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        return 3
    if flaky:
        print(f"note: {len(flaky)} failure(s) did not reproduce three times: {flaky[0]['why'][:1000]}", file=sys.stderr)
    if not runs:
        print("harness error: nothing ran", file=sys.stderr)
        return 3
    for f in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    return 0


def replay(mod, path):
    import build as B
    r = json.load(open(path))
    prod = B.product(**mod.NEEDS)
    why = confirm(mod, prod, r["tier"], r["seed"], r["sub"], r["case"], 1)
    if why is None:
        print("the case passes")
        return 0
    print(why)
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1
