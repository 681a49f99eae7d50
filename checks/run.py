"""python run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "lib"))

import common  # noqa: E402
from common import Scratch, Violation, drive, prebuild, run_case  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """[(case, what)] of the lines 'known: property=ID case=JSON what=...'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s case=" % prop):
                rest = line.split(" case=", 1)[1]
                case, what = rest.split(" what=", 1)
                out.append((json.loads(case), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module(a.prop.lower())
    check = mod.CHECK(a.tier, a.seed)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)

    if a.replay:
        rec = json.load(open(a.replay))
        st, nt, text = run_case(check, rec["case"])
        print(st, text)
        if st == "violation":
            print("VIOLATION property=%s replay=%s" % (check.id, a.replay))
        return 1 if st == "violation" else 0

    known = known_findings(check.id)
    violations, merged = [], None
    build_note = None
    try:
        prebuild(check.models)
    except Violation as e:
        build_note = str(e)
        violations.append(({"build": list(check.models)}, build_note))
    if not violations:
        for case, what in known:
            st, nt, text = run_case(check, case)
            if st == "violation":
                print("KNOWN-FINDING: property=%s %s" % (check.id, what))
        n = a.n if a.n is not None else \
            (check.quick if a.tier == "quick" else check.thorough)
        cap = 420.0 if a.tier == "quick" else 3600.0
        merged = drive(check, n, cap)
        for site, k in sorted(merged["known"].items()):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (
                check.id, common.known_sites()[site], k))
        kn = [json.dumps(c, sort_keys=True) for c, _ in known]
        violations = [v for v in merged["violations"]
                      if json.dumps(v[0], sort_keys=True) not in kn]
    cov = {
        "evaluations": merged["evaluations"] if merged else 1,
        "distinct_nontrivial": len(merged["keys"]) if merged else 0,
        "rule": check.rule,
        "samples": merged["samples"][:6] if merged else
        [{"case": {"build": list(check.models)}, "observed": build_note}],
        "outside_domain": merged["skipped"] if merged else 0,
        "workers": check.workers,
    }
    if merged and merged["known"]:
        cov["known_findings"] = merged["known"]
    if merged and merged["notes"]:
        cov["notes"] = merged["notes"]
    ev = {"property": check.id, "tier": a.tier, "seed": a.seed,
          "level": "exploration", "coverage": cov,
          "assumptions": list(check.assumptions),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(evdir, check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if violations:
        case, text = min(violations, key=lambda v: len(json.dumps(v[0])))
        rp = os.path.join(evdir, "replay_%s.json" % check.id)
        with open(rp, "w") as f:
            json.dump({"property": check.id, "case": case, "what": text,
                       "seed": a.seed}, f, indent=1)
        print("%s: %s" % (check.id, text))
        print("case: %s" % json.dumps(case)[:2000])
        print("VIOLATION property=%s replay=%s" % (check.id, rp))
        return 1
    print("%s held: %d cases, %d distinct and non-trivial, %d outside the "
          "domain, %.1f s" % (check.id, cov["evaluations"],
                              cov["distinct_nontrivial"],
                              cov["outside_domain"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        Scratch.clean()
    sys.stdout.flush()
    sys.exit(rc)
