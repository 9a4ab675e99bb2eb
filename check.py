#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property on the current tree of the repository.
   check.py ID --replay FILE: runs one recorded case again."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import vbuild

VERIF = os.path.dirname(os.path.abspath(__file__))

# id -> tier -> list of runs (variant, batches, cases per batch, time cap in seconds)
with open(os.path.join(VERIF, "budgets.json")) as f:
    BUDGETS = json.load(f)
DEFAULT = BUDGETS["default"]


def load_known(prop):
    res = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e["property"] == prop and e["status"] == "known":
                res.append(e)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--variant")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    start = time.time()
    jobs = os.cpu_count() or 8
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % a.property)
    env = dict(os.environ)
    env.update(LC_ALL="C", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:exitcode=77",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", TSAN_OPTIONS="exitcode=77:report_bugs=1")
    try:
        if a.replay:
            exe = vbuild.build(a.property, a.variant or "plain", jobs)
            return subprocess.run([exe, "--replay", os.path.abspath(a.replay), "--scratch", scratch], env=env).returncode
        known = load_known(a.property)
        tier = BUDGETS.get(a.property, {}).get(a.tier) or DEFAULT[a.tier]
        tot = {"evaluations": 0, "discards": 0, "nontrivial": 0, "distinct": 0}
        labels, hits, samples, unstable, capped, rule = {}, {}, [], [], False, ""
        variants = []
        violation = None
        for n, (variant, batches, cases, cap) in enumerate(tier):
            if a.variant and variant != a.variant:
                continue
            exe = vbuild.build(a.property, variant, jobs)
            batches = max(1, int(batches * a.scale))
            variants.append({"variant": variant, "batches": batches, "cases_per_batch": cases})
            result = os.path.join(scratch, "result%d.json" % n)
            replay = os.path.join(scratch, "replay%d.txt" % n)
            cmd = [exe, "--seed", str(a.seed * 1000 + n), "--batches", str(batches), "--cases", str(cases), "--jobs",
                   str(jobs), "--time-cap", str(cap), "--scratch", scratch, "--result", result, "--replay-out", replay]
            for k in known:
                cmd += ["--known", k["key"]]
            subprocess.run(cmd, env=env)
            with open(result) as f:
                res = json.load(f)
            rule = res["rule"]
            capped = capped or res["capped"]
            unstable += res["unstable"]
            for k, v in res["knownCrashes"].items():
                hits[k] = hits.get(k, 0) + v
            for p in res["parts"]:
                for k in tot:
                    tot[k] += p[k]
                for k, v in p["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                for k, v in p["known"].items():
                    hits[k] = hits.get(k, 0) + v
                if len(samples) < 6:
                    samples += p["samples"]
            if res["verdict"] == "fail":
                rdir = os.path.join(VERIF, "replays")
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, "%s-%s-seed%d-%s.txt" % (a.property, a.tier, a.seed, variant))
                shutil.copy(replay, dst)
                violation = (dst, res["failure"], variant)
                break
        evidence = {
            "property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct"], "rule": rule,
                "samples": samples[:6], "nontrivial": tot["nontrivial"], "discarded": tot["discards"],
                "classes": dict(sorted(labels.items())), "runs": variants, "stopped_by_time_cap": capped,
                "unstable_not_reported": unstable, "known_findings_hit": hits,
            },
            "violations": 1 if violation else 0,
            "wall_s": round(time.time() - start, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", a.property + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
        for k in known:
            print("KNOWN-FINDING: property=%s %s (hit by %d generated cases)" % (a.property, k["what"], hits.get(k["key"], 0)))
        if violation:
            dst, failure, variant = violation
            print("failure key: %s\n%s\n%s" % (failure["key"], failure["msg"], failure["note"]))
            print("replay with: python3 check.py %s --variant %s --replay %s" % (a.property, variant, dst))
            print("VIOLATION property=%s replay=%s" % (a.property, dst))
            return 1
        print("%s %s seed %d: held on %d cases (%d distinct non-trivial, %d discarded) in %.1f s%s" % (
            a.property, a.tier, a.seed, tot["evaluations"], tot["distinct"], tot["discards"], time.time() - start,
            ", stopped by the time cap" if capped else ""))
        for u in unstable:
            print("note: not reproducible, not reported:", u)
        return 0
    except vbuild.BuildError as e:
        print("BUILD ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
