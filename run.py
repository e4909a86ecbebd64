#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--case CASE]

Runs the check of one property against the tree in /repo.  Exit 0: held on everything
explored; exit 1 with a VIOLATION line: broken."""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from lib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            v = json.load(f)
        args.case, args.seed, args.tier = v["case"], v["seed"], v["tier"]

    os.environ.update(LC_ALL="C.UTF-8", TZ="UTC")
    time.tzset()
    check = importlib.import_module("checks." + args.prop.lower())
    rec = core.Recorder(args.prop, args.tier, args.seed, args.case)
    rec.rule = check.RULE
    rec.assumptions = list(getattr(check, "ASSUMPTIONS", ()))
    rec.findings = core.known_findings(args.prop)
    core.limit_memory()
    budget = float(os.environ.get("VERIF_BUDGET") or (600 if args.tier == "quick" else 780))
    stopped = None
    try:
        check.MOD = core.load()
    except Exception:
        rec.case = "import"
        rec.violation("the package can not be imported: " + traceback.format_exc()[-800:])
    else:
        deadline = time.monotonic() + budget
        if args.replay and "data_b64" in v and hasattr(check, "replay"):
            check.replay(rec, v)
        elif args.case is None and (args.tier == "thorough" or getattr(check, "PARALLEL", False)):
            stopped = core.run_parallel(check, rec, deadline, min(8, os.cpu_count() or 1))
        else:
            stopped = core.run_cases(check, rec, deadline)
    # What the monitors have to have seen for the run to say anything.
    inconclusive = []
    if not rec.violations and args.case is None:
        for kind, least in getattr(check, "MUST_SEE", {}).items():
            have = rec.counts[kind] or len(rec.sets.get(kind, ()))
            if have < least:
                inconclusive.append(f"{kind}: {have} < {least}")
    core.evidence(rec, stopped, inconclusive)

    for fid, text in rec.findings.items():
        if rec.known[fid]:
            print(f"KNOWN-FINDING: property={args.prop} id={fid} {text}")
    for n, v in enumerate(rec.violations):
        path = core.write_replay(v, n)
        print(f"VIOLATION property={args.prop} replay={path}")
        print("  case", v["case"], "--", str(v["what"])[:600])
    print(f"{args.prop} {args.tier} seed={args.seed}: {rec.evaluations} executions judged, "
          f"{len(rec.distinct)} distinct, {len(rec.violations)} violations, "
          f"{time.monotonic() - rec.t0:.1f} s" + (f", stopped: {stopped}" if stopped else ""))
    if rec.violations:
        return 1
    if inconclusive:
        print("INCONCLUSIVE: the monitors saw too little: " + "; ".join(inconclusive))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
