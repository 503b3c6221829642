"""Explorer over (value, configuration) pairs, shared by the input checks.

A plan is a list of (label, function yielding value expressions, configs).
Every expression is a state reached by growing its predecessor with one child
(leaves are initial states); every (state, configuration) is executed on the
real code and judged by `judge(case, report)`.
"""
import itertools
import os
import signal
import time
import traceback

from . import env, oracle, runner

CASE_SECONDS = 60


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout(f"no answer within {CASE_SECONDS} s")


def is_leaf(expr):
    return not expr.startswith(("[", "(", "{", "MappingProxyType(", "iter(", "frozenset(", "set(", "gen("))


def is_code(filename):
    """Whether the file belongs to the code under test (or its scratch copy)."""
    return filename.startswith(env.REPO + os.sep) or f"{os.sep}lazy_type_hint{os.sep}" in filename


def guarded(judge, case, rep, site=None):
    """Run one case; whatever the code under test raises is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        judge(case, rep)
    except oracle.Bad as b:
        rep.violation(case, "module-" + b.kind, b.detail)
    except CaseTimeout as e:
        rep.violation(case, "hang", str(e))
    except RecursionError as e:
        rep.violation(case, "raised", f"RecursionError: {e}")
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if not any(is_code(f.filename) for f in tb) and not isinstance(e, ImportError):
            raise
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if is_code(f.filename)), "")
        rep.violation(case, "raised", f"{type(e).__name__}: {e} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def explore(plan, judge, workers=None):
    """Everything in the plan, spread over forked workers."""

    def work(_, i, n, rep):
        rep.deadline = None
        for label, exprs, configs in plan:
            for e in itertools.islice(exprs(), i, None, n):
                rep.seen("states", e)
                if not is_leaf(e):
                    rep.seen("transitions", e)
                for c in configs:
                    rep.count("executions")
                    rep.count("executions " + label)
                    if rep.counts["executions"] % 997 == 1:
                        rep.sample({"value": e, "configuration": c})
                    guarded(judge, {"value": e, "config": c}, rep)

    return runner.parallel(work, plan, workers)


def coverage(rep, rule, exhaustive=True):
    return {
        "states": len(rep.sets.get("states", ())),
        "transitions": len(rep.sets.get("transitions", ())),
        "traces_validated_against_impl": rep.counts.get("executions", 0),
        "distinct_outcomes": len(rep.sets.get("outcomes", ())),
        "per_universe": {k[11:]: v for k, v in rep.counts.items() if k.startswith("executions ")},
        "rule": rule,
        "exhaustive": exhaustive,
    }
