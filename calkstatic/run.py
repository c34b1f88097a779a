"""Entry point:  python3 -m calkstatic.run <property> <quick|thorough>"""

import importlib
import json
import os
import sys
import time

from . import lib
from .rules import registry

VERIF = os.path.dirname(lib.HERE)
EVIDENCE = os.environ.get("CALK_EVIDENCE") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")


def known(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.monotonic()
    sys.setrecursionlimit(20000)
    rules = registry.load()[prop]
    R = lib.Rule(prop, tier)
    for f in rules["checks"]:
        f(R)
    res = R.run_jobs(per_job=150 if tier == "quick" else 400,
                     total=500 if tier == "quick" else 780)
    obls = res["obls"]
    proved = [o for o in obls if o["verdict"] == "proved"]
    undecided = [o for o in obls if o["verdict"] == "undecided"]
    refuted = [o for o in obls if o["verdict"] == "refuted"]
    findings, new = [], []
    kn = known(prop)
    for o in refuted:
        hit = [k for k in kn if k["rule"] == o["rule"]
               and k["construct"] == o["construct"]]
        (findings if hit else new).append(o)
        if hit:
            o["finding"] = hit[0]["what"]
    os.makedirs(EVIDENCE, exist_ok=True)
    print(f"{prop} {tier}: {rules['title']}")
    print(f"  analysed {len(res['analysed'])} functions in "
          f"{res['scenarios']} scenarios from {len(res['anchors'])} entry "
          f"points; {len(obls)} obligations: {len(proved)} proved, "
          f"{len(undecided)} undecided, {len(refuted)} refuted")
    for o in undecided[:12]:
        print(f"  undecided [{o['scenario']}] {o['rule']}: {o['construct']}: "
              f"{o['detail'][:200]}")
    seen = set()
    for o in findings:
        if o["finding"] not in seen:
            seen.add(o["finding"])
            print(f"KNOWN-FINDING: property={prop} {o['finding']}")
    violations = []
    replay = None
    if new:
        rd = os.path.join(EVIDENCE, "replay")
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, f"{prop}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "violations": new}, f, indent=1)
        for o in new[:8]:
            print(f"  refuted [{o['scenario']}] {o['rule']}: "
                  f"{o['construct']}: {o['detail'][:500]}")
        print(f"VIOLATION property={prop} replay={replay}")
        violations = [f"{o['rule']} | {o['construct']} | {o['scenario']}"
                      for o in new]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": rules["rule"],
            "obligations": len(obls),
            "discharged": len(proved),
            "undecided": len(undecided),
            "known_findings": len(findings),
            "scenarios": res["scenarios"],
            "entry_points": sorted(res["anchors"]),
            "functions_analysed": sorted(
                q for q in res["analysed"]
                if q.startswith("calkulate")),
            "obligation_list": sorted({
                f"{o['verdict']}: {o['rule']}: {o['construct']}"
                for o in obls})[:400],
            "undecided_list": [
                f"{o['rule']}: {o['construct']}: {o['detail'][:160]}"
                for o in undecided][:60],
        },
        "wall_s": round(time.monotonic() - t0, 2),
        "assumptions": registry.ASSUMPTIONS + rules.get("assumptions", []),
        "violations": len(violations),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if res["missing"] and not proved:
        print("  no anchored function of this property exists any more")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
