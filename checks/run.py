#!/usr/bin/env python3
"""Runs one property's check:  run.py <property> [quick|thorough]      run.py replay <file>
exit 0 held on everything explored, 1 violation (replayed natively), 2 no verdict."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bits
import build
import specs

JOBS = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def tag(v):
    return "-".join(sorted(v)) or "none"


def say(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    pass


def build_all(spec, variants):
    """binaries per variant: {variant: (symbolic, native)}; the two kinds build concurrently"""
    def kind(k):
        return [spec.builder(k, v) for v in variants]
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(kind, "sym"), ex.submit(kind, "real")
        a, b = a.result(), b.result()
    return {v: (x[0], y[0]) for v, x, y in zip(variants, a, b)}, {tag(v): round(x[1] + y[1], 1) for v, x, y in zip(variants, a, b)}


def native(binary, prop, tier, scenario, model, timeout=120):
    """one native run: (list of failures, number of checks); a run that does not end in time shows nothing"""
    try:
        r = subprocess.run([binary, prop, tier, scenario], input=model, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [], 0
    if r.returncode == 3:
        raise NoVerdict(f"scenario {scenario} is missing from the native program")
    lines = r.stdout.splitlines()
    fails = [l[5:] for l in lines if l.startswith("FAIL ")]
    n = sum(int(l.split()[1]) for l in lines if l.startswith("CHECKS "))
    if r.returncode != 0 and not fails:
        fails = [f"ended with status {r.returncode}"]
    return fails, n


def model_text(m):
    return ",".join(f"{k}={v}" for k, v in m.items()) if isinstance(m, dict) else m


def known():
    out = []
    p = build.VERIF + "/known_findings.json"
    if os.path.exists(p):
        out = json.load(open(p)).get("findings", [])
    return out


def listed(x):
    return next((k for k in known() if k["property"] == x["property"] and k["variant"] == tag(x["variant"]) and k["scenario"] == x["scenario"] and k["obligation"] == x["obligation"] and k["native"] in x["native"]), None)


def main(prop, tier):
    t0 = time.time()
    spec = specs.SPECS[prop]
    budget = 560 if tier == "quick" else 3000
    try:
        variants = spec.variants if tier == "quick" else spec.tvariants
        bins, build_s = build_all(spec, variants)
    except RuntimeError as e:
        say("NO VERDICT:", e)
        return 2
    totals, runs, violations, findings, undecided, unreproduced, crashed = {}, [], [], [], [], [], []
    validated = vchecks = 0
    share = max(60, (budget - (time.time() - t0)) / len(variants))
    for v in variants:
        symb, real = bins[v]
        e = dict(os.environ, SYM_BUDGET=str(int(share)))
        r = subprocess.run([symb, prop, tier, str(SEED), str(JOBS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        try:
            d = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            say("NO VERDICT: symbolic execution failed:", r.stderr[-1500:])
            return 2
        models = d.pop("models")
        refuted = d.pop("refuted")
        d["variant"] = tag(v)
        runs.append(d)
        for k, x in d.items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                totals[k] = round(totals.get(k, 0) + x, 3)
        undecided += [f"[{tag(v)}] {l}" for l in d["unknown_labels"]]
        if d["errors"]:
            say("NO VERDICT:", d["errors"])
            return 2
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # counterexamples: replay against the real code
            todo = {}
            for x in refuted:
                todo.setdefault(x["scenario"], []).append(x)
            skipped = []
            order = [x for k in range(4) for l in todo.values() for x in l[k:k + 1]][:64]
            t1 = time.time()

            def enough():
                return len(violations) >= 8 and time.time() - t1 > 20 or time.time() - t1 > (240 if tier == "quick" else 900)
            for x, got in zip(order, ex.map(lambda x: None if enough() else native(real, prop, tier, x["scenario"], model_text(x["model"])), order)):
                if got is None:
                    skipped.append(x)
                    continue
                fails = got[0]
                rec = dict(property=prop, tier=tier, variant=list(v), scenario=x["scenario"], obligation=x["label"], symbolic=x["msg"], model=x["model"], native=fails[:6])
                (violations if fails else unreproduced).append(rec)
            if skipped and not violations:
                unreproduced += skipped
            # the encoding itself: models of explored paths run natively with the real field arithmetic
            models.sort(key=lambda m: not m[2])
            pick = models[:(60 if tier == "quick" else 400)]
            t2 = time.time()
            late = lambda: time.time() - t2 > (150 if tier == "quick" else 1200)
            for m, (fails, n) in zip(pick, ex.map(lambda m: ([], 0) if late() else native(real, prop, tier, m[0], m[1]), pick)):
                validated += n > 0 or bool(fails)
                vchecks += n
                if fails and not any(x["scenario"] == m[0] for x in violations):
                    violations.append(dict(property=prop, tier=tier, variant=list(v), scenario=m[0], obligation="native run of an explored path's model", symbolic="", model=dict(y.split("=") for y in m[1].split(",") if "=" in y), native=fails[:6]))
        if violations and time.time() - t0 > 300 and not all(listed(x) for x in violations):
            break
    bit_runs = []
    if spec.bits and not (violations and time.time() - t0 > 400):
        b = spec.bits
        for v, d in bits.run_all(b, tier, max(120, budget + 200 - (time.time() - t0)), JOBS):
            h = d["harness"]
            vals = d.pop("values", None) or []
            bit_runs.append(dict(d, variant=tag(v)))
            totals["queries"] = totals.get("queries", 0) + d["queries"]
            totals["solver_time_s"] = round(totals.get("solver_time_s", 0) + d["solver_s"], 3)
            totals["obligations"] = totals.get("obligations", 0) + 1
            if d["status"] == "held":
                totals["discharged"] = totals.get("discharged", 0) + 1
            elif d["status"] == "undecided":
                undecided.append(f"[{tag(v)}] {h}: {d['why']}")
            else:
                model = b.model(h, vals)
                rec = dict(property=prop, tier=tier, variant=list(v), scenario=h, obligation=d["assertion"], symbolic="bit-precise harness " + h, model=model, bits=True)
                fails = b.replay(v, model, h)
                rec["native"] = fails[:6]
                (violations if fails else unreproduced).append(rec)
    fresh = []
    for x in violations:
        k = listed(x)
        if k:
            findings.append(k)
        else:
            fresh.append(x)
    files = {}
    for p in spec.files:
        f = f"{build.REPO}/{p}"
        if os.path.exists(f):
            files[p] = hashlib.sha256(open(f, "rb").read()).hexdigest()[:16]
    cov = dict(
        explanation=spec.explanation,
        functions_encoded=spec.functions,
        bounds=spec.bounds(tier),
        outside_bounds=spec.outside,
        variants=[tag(v) for v in variants],
        obligations=int(totals.get("obligations", 0)),
        discharged=int(totals.get("discharged", 0)),
        undecided=undecided[:40],
        unreproduced_counterexamples=[f"{x['scenario']}: {x['obligation']}" for x in unreproduced[:20]],
        totals=totals,
        runs=runs,
        bit_precise_harnesses=bit_runs,
        native_validation=dict(models_run=validated, checks_evaluated=vchecks),
        build_seconds=build_s,
        sources=files,
        solver=subprocess.run(["z3-new", "--version"], stdout=subprocess.PIPE, text=True).stdout.strip(),
        samples=[s for d in runs for s in d["samples"]][:6],
    )
    ev = dict(property=prop, tier=tier, seed=SEED, level="other", coverage=cov, assumptions=spec.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(build.VERIF + "/evidence", exist_ok=True)
    with open(f"{build.VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{prop} {tier}: {cov['discharged']}/{cov['obligations']} obligations discharged on {int(totals.get('paths', 0))} paths, {int(totals.get('queries', 0))} solver queries in {totals.get('solver_time_s', 0)} s, {validated} native runs, {ev['wall_s']} s")
    for k in {json.dumps(k) for k in findings}:
        say(f"KNOWN-FINDING: property={prop} {json.loads(k)['what']}")
    for u in undecided[:10]:
        say("UNDECIDED", u)
    if fresh:
        d = f"{build.BUILD}/replay"
        os.makedirs(d, exist_ok=True)
        for n, x in enumerate(fresh[:8]):
            p = f"{d}/{prop}-{n}.json"
            with open(p, "w") as f:
                json.dump(x, f, indent=1)
            say(f"  {x['scenario']} [{tag(x['variant'])}] {x['obligation']}: native: {x['native'][:1]}")
            say(f"VIOLATION property={prop} replay={p}")
        return 1
    if unreproduced:
        for x in unreproduced[:5]:
            say("NO VERDICT: counterexample does not reproduce natively:", x["scenario"], x["obligation"], x["symbolic"][:200])
        return 2
    if totals.get("paths", 0) == 0 or totals.get("obligations", 0) == 0:
        say("NO VERDICT: nothing was explored")
        return 2
    return 0


def replay(path):
    x = json.load(open(path))
    spec = specs.SPECS[x["property"]]
    if x.get("bits"):
        fails = spec.bits.replay(tuple(x["variant"]), x["model"], x["scenario"])
        for f in fails:
            say("FAIL", f)
        if fails:
            say(f"VIOLATION property={x['property']} replay={path}")
        return 1 if fails else 0
    b, _ = spec.builder("real", tuple(x["variant"]))
    fails, n = native(b, x["property"], x["tier"], x["scenario"], model_text(x["model"]))
    for f in fails:
        say("FAIL", f)
    if fails:
        say(f"VIOLATION property={x['property']} replay={path}")
    return 1 if fails else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except NoVerdict as e:
        say("NO VERDICT:", e)
        sys.exit(2)
    except Exception:
        import traceback
        say("NO VERDICT:", traceback.format_exc())
        sys.exit(2)
