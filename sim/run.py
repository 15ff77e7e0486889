#!/usr/bin/env python3
"""Decides one property: builds its harness from /repo, searches, reports.

usage: run.py PROPERTY [--seconds N] [--replay FILE]
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from harnesses import PROPS, HARNESSES  # noqa: E402

RULE = ("one evaluation = one complete simulated run (own seed: own workload, schedule, clock and "
        "faults); distinct_nontrivial = distinct hashes over every decision and event of a run, counting "
        "only runs with at least one decision other than the default (no switch, no fault, smallest workload)")


def known_findings(prop):
    path = f"{VERIF}/known-findings.txt"
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if not line.startswith("known: "):
                continue
            rest = line[7:]
            fields, _, key = rest.partition(" key=")
            if fields.split()[0] == f"property={prop}":
                out.append(key.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--max-runs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hname = cfg["harness"]
    h = HARNESSES[hname]
    if h.get("kind") == "python":
        cmd = [h["python"], f"{HERE}/{h['main']}"]
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    else:
        import build
        cmd = [build.build(hname)]
        env = dict(os.environ)
    build_s = time.time() - t0
    if a.replay:
        sys.exit(subprocess.run(cmd + ["--replay", a.replay, "--trace"], env=env).returncode)
    seconds = a.seconds or cfg.get(tier, 35 if tier == "quick" else 400)
    ev = f"{VERIF}/evidence"
    os.makedirs(f"{ev}/replay", exist_ok=True)
    out = f"{ev}/.{prop}.{os.getpid()}.json"
    replay = f"{ev}/replay/{prop}.txt"
    if os.path.exists(replay):
        os.remove(replay)
    args = ["--property", prop, "--harness", hname, "--seed", str(seed), "--seconds", str(seconds),
            "--out", out, "--replay-out", replay, "--workers", str(min(8, os.cpu_count() or 8))]
    if a.max_runs:
        args += ["--max-runs", str(a.max_runs)]
    known = known_findings(prop)
    for k in known:
        args += ["--known", k]
    rc = subprocess.run(cmd + args, env=env).returncode
    if not os.path.exists(out):
        print(f"error: simulation driver failed (exit {rc})")
        sys.exit(3)
    r = json.load(open(out))
    os.remove(out)
    violation = r["violation"]
    reproduced = False
    if violation:
        p = subprocess.run(cmd + ["--replay", replay], env=env, stdout=subprocess.PIPE, text=True)
        reproduced = p.returncode == 1
        if not reproduced:
            print(p.stdout)
    runs = int(r["runs"])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": int(r["distinct_traces"]),
            "rule": RULE,
            "samples": r["samples"],
            "runs_per_hour": int(runs * 3600 / max(r["wall_s"], 1e-3)),
            "simulated_seconds": r["sim_s"],
            "faults_injected": r["faults"],
            "reach_probes": r["probes"],
            "distinct_interleavings": r["distinct_interleavings"],
            "distinct_states": r["distinct_states"],
            "state_measure": cfg.get("measure", "hash of the abstract state the harness reports"),
            "scheduler_steps": int(r["steps"]),
            "context_switches": int(r["switches"]),
            "memory_accesses_observed": int(r["accesses"]),
            "recorded_decisions": int(r["decisions"]),
            "same_seed_reruns": int(r["det_checks"]),
            "same_seed_mismatches": int(r["det_mismatch"]),
            "real_components": r["real_components"],
            "stub_components": r["stub_components"],
            "build_s": round(build_s, 1),
            "search_s": r["wall_s"],
        },
        "assumptions": cfg.get("assumptions", []) + [
            "sequentially consistent memory: preemption happens between, not within, memory accesses",
            "search is seeded sampling, not exhaustive"],
        "violations": 1 if violation else 0,
        "wall_s": round(time.time() - t0, 2),
    }
    tmp = f"{ev}/.{prop}.tmp"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, f"{ev}/{prop}.json")
    print(f"{prop}: {runs} runs, {evidence['coverage']['distinct_nontrivial']} distinct, "
          f"{r['sim_s']:.1f} simulated s, build {build_s:.1f} s, search {r['wall_s']:.1f} s, "
          f"faults {json.dumps(r['faults'])}, probes {json.dumps(r['probes'])}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if r["nondeterministic_seeds"]:
        print("warning: same-seed reruns differed for seeds", r["nondeterministic_seeds"])
    if violation:
        if reproduced:
            print(f"seed {violation}")
            print(f"VIOLATION property={prop} replay={replay}")
            sys.exit(1)
        print("error: violation did not reproduce in a fresh process:", violation)
        sys.exit(2)
    if r["errors"] or runs == 0:
        print("error:", r["errors"])
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
