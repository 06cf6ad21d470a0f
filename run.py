#!/usr/bin/env python3
"""Coordinator: runs one property's check.  run.py C01 [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENV = dict(JAX_PLATFORMS="cpu", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
           JAX_TRACEBACK_FILTERING="off", TF_CPP_MIN_LOG_LEVEL="3", PYTHONWARNINGS="ignore", PYTHONHASHSEED="0", TQDM_DISABLE="1")
for k in ("JAX_ENABLE_X64", "JAX_DISABLE_JIT", "JAX_DEBUG_NANS", "TQDM_POSITION"):
    os.environ.pop(k, None)
os.environ.update(ENV)
sys.dont_write_bytecode = True

from vlib import core, pool as vpool  # noqa: E402

DEADLINE = {t: float(os.environ.get("VERIF_DEADLINE", v)) for t, v in dict(quick=780.0, thorough=4 * 3600.0).items()}
LIMIT = dict(quick=float(os.environ.get("VERIF_LIMIT", 300.0)), thorough=3600.0)  # seconds for one case


def known_findings(prop):
    """Open findings: 'known: property=C01 monitor=<name> key=<text> | description'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, desc = line[len("known:"):].partition("|")
            f = dict(x.split("=", 1) for x in head.split() if "=" in x)
            if f.get("property") == prop:
                f["desc"] = desc.strip()
                out.append(f)
    return out


def match_known(known, v):
    for f in known:
        if f.get("monitor") == v["monitor"] and f.get("key", "") == v["detail"].get("key", None):
            return f
    return None


def selftest():
    core.worker_init(HERE)
    os.chdir(HERE)
    import jax
    import bayesian_sde_solver
    assert os.path.abspath(bayesian_sde_solver.__file__).startswith(core.REPO + os.sep), bayesian_sde_solver.__file__
    print("ok: jax", jax.__version__, "code under test at", os.path.dirname(bayesian_sde_solver.__file__))
    return 0


def write_replay(prop, tier, seed, case, v):
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(dict(property=prop, tier=tier, seed=seed, case=case, violation=v), indent=1, default=str)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(blob + "\n")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--all-violations", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--only", help="substring filter on the case json (debugging)")
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--shuffle", action="store_true", help="random order of the cases (with VERIF_DEADLINE: a random sample of a tier)")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        r = json.load(open(a.replay))
        core.worker_init(HERE)
        res = core.run_case(r["property"], r["case"])
        print(json.dumps(dict(violations=res["violations"], counters=res["counters"], wall=res["wall"]), indent=1, default=str))
        if res["violations"]:
            print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
            return 1
        return 0
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = core.load_check(prop)
    cases = mod.cases(tier, core.rng_of(seed, prop, "cases"))
    for i, c in enumerate(cases):
        c.setdefault("seed", [seed, i])
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    known = known_findings(prop)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
    if a.shuffle:
        core.rng_of(seed, prop, "order").shuffle(order)
    agg = dict(counters={}, margins={}, sigs=set(), evals=0, samples=[], walls=[])
    viol, hit_known = [], {}
    deadline = t0 + DEADLINE[tier]
    seen = set()

    def on_result(i, r):
        seen.add(i)
        for k, v in r["counters"].items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        for k, v in r["margins"].items():
            agg["margins"][k] = max(agg["margins"].get(k, 0.0), v)
        agg["sigs"].update(r["sigs"])
        agg["evals"] += r["evals"]
        agg["walls"].append((r["wall"], json.dumps(r["case"])[:160]))
        if len(agg["samples"]) < 6:
            agg["samples"].extend(r["samples"][:1])
        for v in r["violations"]:
            kf = match_known(known, v)
            if kf:
                hit_known[kf["key"]] = kf
            else:
                viol.append((r["case"], v, r["exc"]))
        return bool(viol) and not a.all_violations

    end = vpool.run(HERE, prop, cases, order, a.jobs, deadline, LIMIT[tier], on_result)
    status = end["status"]
    for c in cases:
        c.pop("_died", None)
    unfinished = [cases[i] for i in order if i not in seen]
    # an exception is only believed if it happens again in a fresh process
    if viol and all(e for _, _, e in viol):
        got = []
        vpool.run(HERE, prop, [viol[0][0]], [0], 1, time.time() + 600, 300, lambda i, r: got.append(r))
        if not got or not got[0]["violations"]:
            print("INCONCLUSIVE: exception did not reproduce", viol[0][1]["detail"], file=sys.stderr)
            viol, status = [], "flaky"
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=agg["evals"], distinct_nontrivial=len(agg["sigs"]), rule=mod.RULE,
                            samples=agg["samples"], cases=len(cases), cases_finished=len(agg["walls"]),
                            monitors={k[7:]: v for k, v in sorted(agg["counters"].items()) if k.startswith("checks:")},
                            worst_margin={k: round(v, 6) for k, v in sorted(agg["margins"].items())},
                            counters={k: v for k, v in sorted(agg["counters"].items()) if not k.startswith("checks:")},
                            known_findings_seen=sorted(hit_known), not_explored=unfinished),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for kf in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["desc"]))
    if a.profile:
        for w, c in sorted(agg["walls"], reverse=True)[:15]:
            print("%.1fs %s" % (w, c))
        for k, v in sorted(agg["margins"].items()):
            print("margin %-40s %.3g" % (k, v))
    if viol:
        for case, v, _ in viol[:10 if a.all_violations else 1]:
            path = write_replay(prop, tier, seed, case, v)
            print(json.dumps(dict(monitor=v["monitor"], case=case, detail=v["detail"]), default=str)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if status not in ("done", "timeout") or len(unfinished) > len(cases) // 4:
        print("INCONCLUSIVE: %s after %.0fs, %d/%d cases; first unfinished: %s" % (status, wall, len(agg["walls"]), len(cases), unfinished[:3]), file=sys.stderr)
        return 2
    if not a.only:
        low = {k: (agg["counters"].get(k, 0), m) for k, m in mod.REQUIRE.items() if agg["counters"].get(k, 0) < m}
        if low or not agg["evals"] or not agg["sigs"]:
            print("INCONCLUSIVE: monitors not reached: %r" % (low,), file=sys.stderr)
            return 2
    for c in unfinished:
        print("NOT-EXPLORED: property=%s %s (ran away, or its worker died)" % (prop, json.dumps(c)))
    print("HELD property=%s evaluations=%d distinct=%d checks=%d wall=%.1fs" % (
        prop, agg["evals"], len(agg["sigs"]), sum(v for k, v in agg["counters"].items() if k.startswith("checks:")), wall))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
