#!/usr/bin/env python3
"""Decides one property: builds its harnesses from /repo's working tree, lets the
explorer enumerate them, reports.  Usage: check.py ID [--tier quick|thorough]
[--scenario NAME]; check.py --setup builds everything once (fills the cache)."""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import specs

VERIF = build.VERIF


def known_findings(pid):
    """known-findings.json: [{"property","scenario","match","what"}] plus fixed entries."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def main():
    if sys.argv[1] == "--setup":
        all_specs = [dict(h, name=h["name"]) for c in specs.CHECKS.values() for h in c["harnesses"]]
        t = time.time()
        try:
            build.build(all_specs)
        except build.BuildError as e:
            # Only fills the cache: every check builds, and reports, its own.
            print("setup: incomplete: %s" % e)
        print("setup: %d harnesses, %.0f s" % (len(all_specs), time.time() - t))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--scenario":
            only = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = specs.CHECKS[pid]
    t0 = time.time()
    try:
        exes = build.build(check["harnesses"])
    except build.BuildError as e:
        print(str(e))
        print("ERROR: build failed")
        return 2
    tb = time.time() - t0
    tmp = os.path.join(build.BUILD, "tmp", pid)
    os.makedirs(tmp, exist_ok=True)
    if replay:
        text = open(replay).read()
        name = [l.split()[1] for l in text.splitlines() if l.startswith("harness ")][0]
        env = dict(os.environ)
        env.update([h for h in check["harnesses"] if h["name"] == name][0].get("env", {}))
        return subprocess.call([exes[name], "--replay", replay, "--tmp", tmp], env=env)
    out_dir = VERIF if build.BUILD == os.path.join(VERIF, "build") else build.BUILD
    rep_dir = os.path.join(out_dir, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rep_dir, f))
    results = []
    errors = []
    nviol = 0
    known = known_findings(pid)
    known_hit = set()
    budget = check.get("budget", {}).get(tier, 150 if tier == "quick" else 3000)
    total_w = sum(h.get("weight", 1) for h in check["harnesses"])
    for h in check["harnesses"]:
        out = os.path.join(tmp, h["name"] + ".json")
        if os.path.exists(out):
            os.unlink(out)
        b = budget * h.get("weight", 1) / total_w
        cmd = [exes[h["name"]], "--out", out, "--tmp", tmp, "--tier", tier,
               "--jobs", str(build.JOBS), "--budget", str(b)]
        light = h.get("light") and tier == "quick"
        if only or (light and h.get("scenarios")):
            cmd += ["--scenario", only or ",".join("=" + n for n in h["scenarios"])]
        if light:
            cmd += ["--light"]
        env = dict(os.environ)
        env.update(h.get("env", {}))
        env["VERIF_TMP"] = tmp
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            print(p.stdout.decode(errors="replace")[-3000:])
            errors.append("%s ended with %d" % (h["name"], p.returncode))
            continue
        r = json.load(open(out))
        r["harness"] = h["name"]
        results.append(r)
        errors += r["errors"]
        for i, v in enumerate(r["violations"]):
            f = os.path.join(rep_dir, "%s-%s-%d.txt" % (pid, v["scenario"], i))
            with open(f, "w") as fh:
                fh.write("property %s\nharness %s\nscenario %s\ntier %s%s\nchoices %s\n" % (
                    pid, h["name"], v["scenario"], tier, " light" if light else "", " ".join(map(str, v["choices"]))))
                fh.write("# replay: python3 tools/check.py %s --replay <this file>\n" % pid)
                fh.write("# %s\n" % v["message"])
                for t in v["trace"]:
                    fh.write("#   %s\n" % t)
            k = [k for k in known if k["scenario"] == v["scenario"] and k["match"] in v["message"]]
            if k:
                known_hit.add(k[0]["what"])
                continue
            nviol += 1
            print("  %s: %s" % (v["scenario"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, VERIF)))
        # Known findings are enumerated around, and confirmed by cover counters.
        for s in r["scenarios"]:
            for k in known:
                if k.get("cover") and s["covers"].get(k["cover"]):
                    known_hit.add(k["what"])
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    sc = [s for r in results for s in r["scenarios"]]
    execs = sum(s["executions"] for s in sc)
    states = sum(s["states"] if s["states"] else s["outcomes"] for s in sc)
    trans = sum(s["steps"] if s["steps"] else s["choices"] for s in sc)
    outcomes = sum(s["outcomes"] for s in sc)
    exhaustive = bool(sc) and all(s["exhaustive"] for s in sc) and not errors
    samples = [x for s in sc for x in s["samples"]][:20]
    cov = {
        "states": states, "transitions": trans,
        "traces_validated_against_impl": execs,
        "evaluations": execs, "distinct_nontrivial": outcomes,
        "rule": check["rule"], "samples": samples or ["none"], "exhaustive": exhaustive,
        "bounds": check.get("bounds", ""),
        "not_completed": [s["name"] for s in sc if not s["exhaustive"]],
        "scenarios": [{k: s[k] for k in ("name", "executions", "steps", "choices", "states", "outcomes",
                                         "trivial", "max_depth", "exhaustive", "wall_s", "covers")} for s in sc],
        "build_s": round(tb, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check.get("level", "model_checking"),
          "coverage": cov, "assumptions": check.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(out_dir, "evidence"), exist_ok=True)
    path = os.path.join(out_dir, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)
    for s in sc:
        print("%-34s execs %9d  steps %10d  states %8d  outcomes %8d  depth %4d  %s %.1fs" % (
            s["name"], s["executions"], s["steps"], s["states"], s["outcomes"], s["max_depth"],
            "exhaustive" if s["exhaustive"] else "CAPPED", s["wall_s"]))
    print("%s: %d executions, %d states, %d transitions, build %.1f s, total %.1f s%s" % (
        pid, execs, states, trans, tb, time.time() - t0, "" if exhaustive else " (not exhaustive)"))
    for e in errors:
        print("ERROR: " + e)
    if nviol:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
