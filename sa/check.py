#!/usr/bin/env python3
"""python3 sa/check.py <ID> [quick|thorough]: decides one property from the
current sources of /repo, rewrites evidence/<ID>.json."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VERIF = os.path.dirname(HERE)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    key, _, text = rest.partition(" :: ")
                    out.append((key.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import core
    try:
        core.package()
    except SyntaxError as ex:
        print("cannot parse the sources under analysis: %s" % ex)
        return 2
    mod = importlib.import_module("props.p_" + pid.lower())
    obs = mod.obligations(tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        obs = [o for o in obs if only in o.name]
    res = core.run_all(obs, timeout=150 if tier == "quick" else 600, total=480 if tier == "quick" else 0)
    known = known_findings(pid)
    counts = {core.PROVED: 0, core.AGREED: 0, core.VIOLATED: 0, core.UNDECIDED: 0}
    funcs = set()
    stmts = 0
    viol, und, knownhits = [], [], []
    rules = {}
    samples = []
    n = 0
    for r in res:
        funcs |= set(r["cov"].get("functions", []))
        stmts += r["cov"].get("statements", 0)
        for f in r["findings"]:
            n += 1
            rules[f["rule"]] = rules.get(f["rule"], 0) + 1
            ident = "%s | %s | %s" % (r["name"], f["rule"], f["where"])
            if f["verdict"] == core.VIOLATED:
                hit = [k for k in known if k[0] == f.get("key", r["name"] + "/" + f["rule"])]
                if hit:
                    knownhits.append((hit[0], f))
                    continue
                viol.append((ident, f["detail"]))
            elif f["verdict"] == core.UNDECIDED:
                und.append((ident, f["detail"]))
            counts[f["verdict"]] += 1
            if len(samples) < 6 and f["verdict"] != core.UNDECIDED:
                samples.append({"obligation": r["name"], "rule": f["rule"], "where": f["where"],
                                "verdict": f["verdict"], "detail": f["detail"][:300]})
    wall = time.time() - t0
    replay = os.path.join("evidence", "replay-%s.txt" % pid)
    if viol:
        with open(os.path.join(VERIF, replay), "w") as f:
            for i, d in viol:
                f.write("VIOLATED %s\n    %s\n" % (i, d))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or pid),
            "obligations": n,
            "discharged_by_normal_form": counts[core.PROVED],
            "discharged_by_random_interpretation": counts[core.AGREED],
            "violated": counts[core.VIOLATED],
            "undecided": counts[core.UNDECIDED],
            "known_findings": len(knownhits),
            "contexts_analysed": len(res),
            "functions_analysed": sorted(funcs),
            "statements_interpreted": stmts,
            "rules": rules,
            "undecided_list": [{"obligation": i, "why": d[:300]} for i, d in und[:40]],
            "samples": samples or [{"note": "no obligation decided"}],
            "timings": {r["name"]: r["wall"] for r in sorted(res, key=lambda r: -r["wall"])[:8]},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "value numbers are over exact real arithmetic (rounding is outside the property)",
            "numpy, scipy and Python built-ins behave as the library models in sa/lib.py state",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    verbose = os.environ.get("VERIF_V")
    if verbose:
        for r in res:
            for f in r["findings"]:
                print("%-9s %s | %s | %s  (%.1fs) %s" % (f["verdict"], r["name"], f["rule"], f["where"], r["wall"], f["detail"][:int(verbose)]))
    for (k, text), f in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s: %d obligations, %d proved, %d agreed, %d violated, %d undecided, %.1fs" % (
        pid, tier, n, counts[core.PROVED], counts[core.AGREED], counts[core.VIOLATED], counts[core.UNDECIDED], wall))
    if viol:
        for i, d in viol[:8]:
            print("  %s\n      %s" % (i, d[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
