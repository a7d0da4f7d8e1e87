#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--replay FILE] [--only SUB] [--scale X]

VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Any other exit status: the check itself could not run.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from registry import CHECKS


def known_findings(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def run_env(tmp, prop):
    env = dict(os.environ)
    env["VERIF_KNOWN"] = " ".join(k["id"] for k in known_findings(prop))
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", TMPDIR=tmp,
               OMPI_MCA_rmaps_base_oversubscribe="1", VERIF_SCRATCH=tmp, VERIF_REPO=B.REPO,
               OMPI_MCA_btl_vader_single_copy_mechanism="none")
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[a.property]
    runs = []
    try:
        for r in spec["runs"]:
            binary = B.build("%s-%s" % (a.property, r["name"]), r["config"], r["sources"],
                             ["lib/pbt.cpp"] + r["harness"], r.get("extra", []))
            programs = {}
            for g in r.get("programs", []):
                programs["VERIF_PROG_" + g["name"]] = B.build("%s-%s-%s" % (a.property, r["name"], g["name"]), g["config"],
                                                              g["sources"], [], g.get("extra", []))
            runs.append((r, binary, programs))
    except B.BuildError as e:
        print("BUILD FAILED for %s: %s" % (a.property, e))
        return 2
    tb = time.time() - t0
    if a.build_only:
        print("built %s in %.1f s" % (a.property, tb))
        return 0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    try:
        return execute(a, spec, runs, seed, tier, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def execute(a, spec, runs, seed, tier, tmp, t0, tb):
    env = run_env(tmp, a.property)
    if a.replay:
        with open(a.replay) as f:
            first = f.readline().split()
            second = f.readline().split()
        sub = second[1] if len(second) > 1 else ""
        run = os.path.basename(os.path.dirname(os.path.abspath(a.replay)))
        code = 2
        for r, binary, programs in runs:
            if r["name"] != run and len(runs) > 1:
                continue
            p = subprocess.run([binary, "--replay", os.path.abspath(a.replay)], env=dict(env, **programs), cwd=tmp)
            code = p.returncode
            if code == 1:
                print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return code
    shards = len(os.sched_getaffinity(0))
    total_eval = total_disc = flaky = 0
    nontrivial = 0
    samples, labels, subs, violations = [], {}, {}, []
    truncated = False
    failed = None
    budget = 330.0 if tier == "quick" else 2400.0
    for r, binary, programs in runs:
        shards = min(r.get("shards", shards), len(os.sched_getaffinity(0)))
        rdir = os.path.join(VERIF, "replays", a.property, r["name"])
        os.makedirs(rdir, exist_ok=True)
        procs = []
        for i in range(shards):
            wd = os.path.join(tmp, "%s-%d" % (r["name"], i))
            os.makedirs(wd)
            out = os.path.join(wd, "result.json")
            e = dict(env, TMPDIR=wd, VERIF_SCRATCH=wd, **programs)
            cmd = [binary, "--seed", str(seed), "--tier", tier, "--shard", str(i), "--shards", str(shards),
                   "--out", out, "--replay-dir", rdir, "--budget", str(budget / len(runs)),
                   "--scale", str(a.scale)]
            if a.only:
                cmd += ["--only", a.only]
            procs.append((subprocess.Popen(cmd, env=e, cwd=wd, stdout=subprocess.DEVNULL,
                                           stderr=open(os.path.join(wd, "err"), "w")), out, wd))
        hashes = {}
        for p, out, wd in procs:
            code = p.wait()
            if code not in (0, 1):
                failed = "%s shard ended with %s: %s" % (
                    r["name"], code, open(os.path.join(wd, "err")).read()[-2000:])
                continue
            with open(out) as f:
                res = json.load(f)
            for s in res["subchecks"]:
                k = r["name"] + "/" + s["name"]
                d = subs.setdefault(k, dict(evaluations=0, discards=0, nontrivial=0, wall=0.0))
                d["evaluations"] += s["evaluations"]
                d["discards"] += s["discards"]
                d["wall"] = round(max(d["wall"], s["wall"]), 2)
                total_eval += s["evaluations"]
                total_disc += s["discards"]
                flaky += s["flaky"]
                truncated |= s["truncated"]
                hashes.setdefault(k, set()).update(s["hashes"])
                for l, c in s["labels"].items():
                    labels[k + ":" + l] = labels.get(k + ":" + l, 0) + c
                if s["samples"] and sum(1 for x in samples if x.startswith(s["name"] + ":")) < 1:
                    samples.append(s["samples"][0])
                if s["violation"]:
                    violations.append((k, s["violation"]))
            shutil.rmtree(wd, ignore_errors=True)
        for k, h in hashes.items():
            subs[k]["nontrivial"] = len(h)
            nontrivial += len(h)
    ev = {
        "property": a.property, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": total_eval, "distinct_nontrivial": nontrivial, "rule": spec["rule"],
            "samples": samples[:12], "discarded": total_disc, "subchecks": subs,
            "labels": dict(sorted(labels.items())), "budget_hit": truncated,
            "unreproducible_failures": flaky,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    ev["coverage"]["build_s"] = round(tb, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, d in sorted(subs.items()):
        print("%-50s %7d cases %7d non-trivial %6d discarded %7.1f s" % (
            k, d["evaluations"], d["nontrivial"], d["discards"], d["wall"]))
    for k in known_findings(a.property):
        if any(l.endswith(":KNOWN " + k["id"]) for l in labels):
            print("KNOWN-FINDING: property=%s %s: %s" % (a.property, k["id"], k["what"]))
    seen = set()
    for k, v in violations:
        if k in seen:
            continue
        seen.add(k)
        print("--- %s\n%s\n--- input\n%s" % (k, v["message"][:1500], v["input"][:1500]))
        print("VIOLATION property=%s replay=%s" % (a.property, v["replay"]))
    if violations:
        return 1
    if failed:
        print("CHECK ERROR: " + failed)
        return 2
    print("property %s held on %d cases (%.0f s, build %.0f s)" % (a.property, total_eval, time.time() - t0, tb))
    return 0


if __name__ == "__main__":
    sys.exit(main())
