#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [quick|thorough] [--replay FILE]

Builds the harnesses of the property against /repo's working tree, explores, writes
evidence/<property>.json. Exit 0: held on everything explored; 1: VIOLATION line.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild
from checks import CHECKS


def known_findings(prop):
    """Signatures (section|case|message) of recorded, unrepaired defects."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % prop):
                sig, _, what = line[len("finding: property=%s " % prop):].partition(" ## ")
                out[sig] = what
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    replay = args[1] if len(args) > 1 and args[0] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[prop]
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix="usmlchk.")
    rc, runs, viol = 0, [], None
    try:
        for part in chk["parts"]:
            exe = vbuild.build(part["harness"], part["flavor"], part["modules"],
                               exclude=part.get("exclude", ()), extra=part.get("extra", ()))
            t_build = time.time() - t0
            out = os.path.join(scratch, "out.json")
            rep = os.path.join(repdir, "%s.replay" % prop)
            cmd = [exe, "--json", out]
            budget = part.get("time", 60) if tier == "quick" else part.get("ttime", part.get("time", 60) * 8)
            cmd += ["--time", str(budget), "--replay-out", rep]
            if tier == "thorough":
                cmd.append("--thorough")
            if part.get("only"):
                cmd += ["--scenario", part["only"]]
            if part["flavor"] != "mc" and known:
                kf = os.path.join(scratch, "known.txt")
                open(kf, "w").write("\n".join(known) + "\n")
                cmd += ["--known", kf]
            env = dict(os.environ, SEQ_SCRATCH=scratch, HOME=scratch)
            env.pop("MC_NOASLR", None)
            if replay:
                cmd = [exe, "--replay", replay]
                env["SEQ_OUTPUT"] = env["MC_OUTPUT"] = "1"
                head = open(replay).read()
                if "part %s" % part["harness"] not in head:
                    continue
                sys.exit(subprocess.run(cmd, env=env, cwd=scratch).returncode)
            r = subprocess.run(cmd, env=env, cwd=scratch)
            res = json.load(open(out)) if os.path.exists(out) else []
            for x in res:
                x["harness"] = part["harness"]
                x["flavor"] = part["flavor"]
            runs += res
            print("-- %s: build %.1fs, total %.1fs" % (part["harness"], t_build, time.time() - t0), flush=True)
            if r.returncode == 1:
                rc, viol = 1, rep
                with open(rep, "a") as f:
                    f.write("part %s\n# replay: python3 run.py %s %s --replay %s\n" % (part["harness"], prop, tier, rep))
                break
            if r.returncode != 0:
                print("error: %s exited %d" % (part["harness"], r.returncode))
                rc = 2
                break
    except vbuild.BuildError as e:
        print("error: " + str(e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    seen_known = sorted({k for x in runs for k in x.get("known", [])})
    write_evidence(prop, chk, tier, seed, runs, rc, time.time() - t0, seen_known)
    vbuild.prune()
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known.get(k, "")))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, viol))
    else:
        print("%s %s %s %.1fs" % (prop, tier, "ok" if rc == 0 else "ERROR", time.time() - t0))
    sys.exit(rc)


def write_evidence(prop, chk, tier, seed, runs, rc, wall, known):
    level = chk["level"]
    mc = [x for x in runs if x["flavor"] == "mc"]
    sq = [x for x in runs if x["flavor"] != "mc"]
    cov = {"scenarios": runs, "exhaustive": all(x["verdict"] == "complete" for x in runs) and bool(runs)}
    samples = []
    for x in sq:
        samples += ["%s: %s" % (x["scenario"], s) for s in x.get("samples", [])[:2]]
    for x in mc:
        samples += ["%s: outcome %s" % (x["scenario"], s) for s in x.get("outcomes", [])[:2]]
    cov["samples"] = samples[:40] or ["none"]
    if level == "model_checking":
        cov["states"] = sum(x.get("states", 0) for x in runs)
        cov["transitions"] = sum(x.get("transitions", 0) for x in runs)
        # the explored object is the implementation itself: every explored
        # trace is an execution of the real code
        cov["traces_validated_against_impl"] = sum(x.get("schedules", x.get("cases", 0)) for x in runs)
        cov["schedules"] = sum(x.get("schedules", 0) for x in mc)
        cov["distinct_outcomes"] = sum(x.get("distinct_outcomes", x.get("distinct", 0)) for x in runs)
    else:
        cov["evaluations"] = sum(x.get("evaluations", x.get("schedules", 0)) for x in runs)
        cov["distinct_nontrivial"] = sum(x.get("distinct", x.get("distinct_outcomes", 0)) for x in runs)
        cov["rule"] = "; ".join("%s: %s" % (x["scenario"], x.get("rule", "")) for x in sq) or "one case per schedule"
        cov["oracle_comparisons"] = sum(x.get("checks", 0) for x in runs)
    cov["capped"] = [x["scenario"] for x in runs if x["verdict"] == "capped"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    if known:
        ev["coverage"]["known_findings"] = known
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
