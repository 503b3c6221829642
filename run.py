#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    a = p.parse_args()
    from mc import env, runner

    t0 = time.time()
    runner.start(a.property)
    try:
        check = importlib.import_module(f"checks.{a.property.lower()}")
    except Exception as e:  # noqa: BLE001
        import traceback

        if env.REPO not in traceback.format_exc():
            raise
        rep = runner.Report()
        rep.violation({"import": "lazy_type_hint"}, "raised", f"the package cannot be imported: {type(e).__name__}: {e}")
        return runner.finish(a.property, a.tier, rep, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "import of the package"}, "exploration", t0)
    if a.replay:
        rep = runner.Report()
        with open(a.replay) as f:
            case = json.load(f)["case"]
        check.replay(case, rep)
        for v in rep.violations:
            print(f"VIOLATION property={a.property} replay={a.replay}\n  {v['kind']}: {v['detail']}")
        return 1 if rep.violations else 0
    rep, cov = check.run(a.tier)
    return runner.finish(a.property, a.tier, rep, cov, check.LEVEL, t0, check.ASSUMPTIONS)


if __name__ == "__main__":
    sys.exit(main())
