#!/opt/venv/bin/python
"""Runs one check:  run.py C01 [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
WANTED = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PROJ_NETWORK": "OFF",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "CPL_LOG": "/dev/null",
}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 1)
    parser.add_argument("--space", help="only explore the spaces with this name (debugging)")
    args = parser.parse_args()

    if any(os.environ.get(k) != v for k, v in WANTED.items()) or os.environ.get("PYTHONPATH"):
        env = dict(os.environ, **WANTED)
        env.pop("PYTHONPATH", None)
        os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

    pid = args.property
    sys.path.insert(0, HERE)
    from mc import core

    sys.path.insert(0, os.path.join(core.REPO, "src"))
    import logging

    logging.disable(logging.CRITICAL)

    evidence_dir = os.path.join(HERE, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    result = None
    notes = {}
    try:
        module = importlib.import_module("checks." + pid.lower())
        if os.path.realpath(sys.modules["aws.osml"].__path__[0]) != os.path.realpath(os.path.join(core.REPO, "src/aws/osml")):
            raise SystemExit(f"{pid}: the code under test is not the one in {core.REPO}")
        spaces = module.spaces(args.tier)
        notes = getattr(module, "NOTES", {})
        if args.space:
            spaces = [s for s in spaces if s.name == args.space]
        if args.replay:
            with open(args.replay) as f:
                record = json.load(f)
            space = [s for s in spaces if s.name == record["space"]] or [
                s for s in module.spaces("thorough") if s.name == record["space"]
            ]
            bad = core._run_one(space[0], core.Ctx(), record["case"])
            print(json.dumps(bad, indent=1, default=repr) if bad else "the case holds now")
            return 1 if bad else 0
        result = core.explore(spaces, args.workers)
    except Exception:
        # The public API the checks use could not even be imported or constructed.
        tb = traceback.format_exc()
        result = {
            "states": 0,
            "transitions": 0,
            "traces": 0,
            "samples": [],
            "known": {},
            "complete": False,
            "per_space": {},
            "violations": [{"space": "setup", "case": None, "message": "the code under test could not be driven", "detail": tb}],
        }

    known_file = os.path.join(HERE, "known_findings.json")
    listed = {}
    if os.path.exists(known_file):
        with open(known_file) as f:
            for entry in json.load(f)["known"]:
                if entry["property"] == pid:
                    listed[entry["id"]] = entry["what"]
    for ident, what in sorted(result["known"].items()):
        if ident in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[ident]}")
        else:
            result["violations"].append({"space": "known", "case": ident, "message": what, "detail": None})

    violations = result["violations"]
    replay = None
    if violations:
        replay = os.path.join(evidence_dir, f"{pid}.replay.json")
        with open(replay, "w") as f:
            json.dump(violations[0], f, indent=1, default=repr)

    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": result["states"],
            "transitions": result["transitions"],
            "traces_validated_against_impl": result["traces"],
            "samples": core.jsonable(result["samples"]),
            "exhaustive": bool(result["complete"] and not violations),
            "cases_per_space": result["per_space"],
            "bounds": {s.name: s.bound for s in spaces} if result["per_space"] else {},
        },
        "assumptions": notes.get("assumptions", []),
        "wall_s": round(time.time() - start, 3),
        "violations": len(violations),
    }
    with open(os.path.join(evidence_dir, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        f"{pid} {args.tier}: states={result['states']} transitions={result['transitions']} traces={result['traces']} "
        f"complete={result['complete']} wall={evidence['wall_s']}s"
    )
    for name, n in result["per_space"].items():
        print(f"  {name}: {n} cases")
    if violations:
        v = violations[0]
        print(f"  {v['space']}: {v['message']}")
        print(f"  case: {json.dumps(v['case'], default=repr)[:2000]}")
        if v.get("detail"):
            print(f"  detail: {str(v['detail'])[:3000]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
