#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

run.py --replay FILE: run the execution of a violation again.
"""
import json
import os
import re
import subprocess
import sys
import time

import build

HERE = build.HERE

# property: list of (variant, part, time cap of quick, time cap of thorough)
PARTS = {
    "C01": [("plain", "sched-write", 90, 400), ("plain", "hist-write", 150, 300),
            ("plain", "grid-write", 120, 180)],
    "C02": [("plain", "sched-read", 90, 400), ("plain", "hist-read", 120, 300)],
    "C03": [("plain", "sched-end", 60, 400)],
    "C04": [("asan", "sched-memory", 90, 200), ("tsan", "sched-memory", 120, 200),
            ("asan", "grid-memory", 90, 280), ("asan", "hist-memory", 90, 90),
            ("tsan", "hist-memory", 60, 60)],
    "C05": [("plain", "grid-seed", 100, 800)],
    "C06": [("plain", "sched-columns", 60, 400), ("plain", "hist-columns", 160, 300)],
    "C07": [("plain", "codec-visibilities", 120, 900)],
    "C08": [("plain", "codec-nonfinite", 120, 900)],
    "C09": [("plain", "codec-dither", 120, 900), ("plain", "grid-dither", 100, 600)],
    "C10": [("plain", "codec-levels", 120, 900)],
    "C11": [("plain", "codec-packing", 120, 900)],
    "C12": [("plain", "codec-weights", 120, 900)],
    "C13": [("plain", "grid-format", 100, 800)],
    "C14": [("plain", "settings", 200, 850)],
    "C15": [("plain", "refuse", 100, 400), ("asan", "refuse", 100, 400)],
    "C16": [("plain", "crash", 120, 850)],
    "C17": [("plain", "faults", 200, 850)],
    "C18": [("plain", "compress", 200, 700), ("asan", "tools-memory", 200, 180)],
    "C19": [("plain", "decompress", 200, 800)],
    "C20": [("plain", "hist-rows", 160, 600)],
    "C21": [("plain", "grid-progress", 100, 800)],
    "C22": [("container", "container", 120, 850)],
}

ASSUMPTIONS = [
    "the scheduler switches threads at synchronisation operations only; between "
    "these, executions are data-race free (decided by C04)",
    "casacore, GSL, libstdc++ and the file system of the sandbox behave as "
    "documented",
    "bounds per scenario (deviations from the default schedule, history depth, "
    "number of threads, rows and columns) are listed under coverage.parts",
]


def run_part(prop, tier, variant, part, cap, binary):
    out = os.path.join(HERE, "build", "part-%s-%s-%s-%d.json" % (prop, part, variant, os.getpid()))
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    cmd = [binary, "--property", prop, "--tier", tier, "--part", part,
           "--evidence", out, "--replaydir", os.path.join(HERE, "replay"),
           "--timecap", str(cap), "--workers", str(min(8, os.cpu_count() or 4)),
           "--variant", variant]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    if r.returncode not in (0, 1):
        sys.stderr.write(r.stderr[-4000:])
    evidence = None
    if os.path.exists(out):
        try:
            evidence = json.load(open(out))
        except ValueError:
            pass
        os.unlink(out)
    return r.returncode, evidence


def known(prop):
    lines = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                lines.append(m.group(2).strip())
    return lines


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--replay":
        info = dict(l.split(" ", 1) for l in open(sys.argv[2]).read().split("\n--\n")[0].splitlines() if " " in l)
        binary = build.build(info.get("variant", "plain"))
        return subprocess.run([binary, "--property", info["property"], "--tier", info["tier"],
                               "--part", info["part"], "--replay", sys.argv[2]]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    parts = PARTS[prop]
    try:
        binaries = build.build_all(sorted(set(p[0] for p in parts)))
    except build.BuildError as e:
        print(e)
        return 2
    build_time = time.time() - start
    code = 0
    violations = 0
    results = []
    for variant, part, quick, thorough in parts:
        rc, evidence = run_part(prop, tier, variant, part,
                                quick if tier == "quick" else thorough, binaries[variant])
        if evidence:
            evidence["variant"] = variant
            results.append(evidence)
        if rc == 1:
            code = 1
            violations += 1
            break
        if rc != 0:
            print("part %s (%s) failed with code %d" % (part, variant, rc))
            code = 2
            break
    for line in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    # Inputs that are enumerated within an execution
    inputs = sum(r["counters"].get(k, 0) for r in results for k in (
        "blocks_encoded", "dithered_values", "draws", "levels", "floats", "searches",
        "arrays_packed", "bit_counts", "weight_blocks", "tables", "files_by_independent_writer", "requests_refused", "files_refused",
        "crash_points", "torn_writes", "faults", "processes_killed", "tool_runs",
        "container_sequences", "container_comparisons"))
    total = {k: sum(r[k] for r in results) for k in ("executions", "states", "transitions", "distinct_outcomes")}
    samples = [s for r in results for s in r["samples"]][:12]
    for r in results:
        del r["samples"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"] + inputs,
            "inputs_enumerated": inputs, "transitions": total["transitions"],
            "traces_validated_against_impl": total["executions"],
            "distinct_outcomes": total["distinct_outcomes"],
            "samples": samples,
            "exhaustive": all(r["complete_within_bounds"] for r in results) and bool(results),
            "explanation": "Every execution is an execution of the real code under a controlled "
                           "scheduler, built from /repo's working tree: there is no separate model, "
                           "so each explored trace is a trace of the implementation. states: "
                           "happens-before classes of choice points, plus the inputs enumerated "
                           "within executions; transitions: choice points "
                           "executed; executions: complete runs checked against the oracle.",
            "parts": results,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - start, 1),
        "build_s": round(build_time, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s %s: %s in %.0f s (%d executions)" % (
        prop, tier, {0: "held", 1: "VIOLATED"}.get(code, "ERROR"), time.time() - start, total["executions"]))
    return code


if __name__ == "__main__":
    sys.exit(main())
