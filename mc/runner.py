"""Runs a check: parallel exploration, known findings, evidence, replay."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

MAX_PER_WORKER = 40


class Report:
    """What one worker (or the whole run) observed."""

    known = ()  # known findings of the property being checked

    def __init__(self):
        self.hits = {}
        self.counts = {}
        self.sets = {}
        self.violations = []
        self.samples = []
        self.nviol = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(hash(item))

    def sample(self, item, cap=6):
        if len(self.samples) < cap:
            self.samples.append(item)

    def violation(self, case, kind, detail, site=None):
        """case: JSON-able description that `replay` can run again."""
        v = {"case": case, "kind": kind, "detail": str(detail)[:2000]}
        if site is not None:
            v["site"] = site
        for e in self.known:
            if matches(e, v):
                self.hits[e["id"]] = self.hits.get(e["id"], 0) + 1
                return
        self.nviol += 1
        self.violations.append(v)
        if len(self.violations) > 4000:
            self.violations.sort(key=vkey)
            del self.violations[1000:]

    def merge(self, o):
        for k, v in o.counts.items():
            self.count(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.violations += o.violations
        self.nviol += o.nviol
        self.samples += o.samples
        for k, v in o.hits.items():
            self.hits[k] = self.hits.get(k, 0) + v


def vkey(v):
    return (len(json.dumps(v["case"])), json.dumps(v["case"], sort_keys=True))


def _worker(fn, items, i, n, q):
    rep = Report()
    try:
        fn(items, i, n, rep)
        q.put(("ok", rep))
    except BaseException:  # noqa: BLE001
        q.put(("error", f"worker {i}: " + traceback.format_exc()))


def parallel(fn, items, workers=None):
    """fn(items, i, n, report) in n forked workers; worker i owns items[i::n]."""
    n = workers or min(8, os.cpu_count() or 1)
    if n == 1:
        rep = Report()
        fn(items, 0, 1, rep)
        return rep
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    sys.stdout.flush()
    ps = [ctx.Process(target=_worker, args=(fn, items, i, n, q), daemon=False) for i in range(n)]
    for p in ps:
        p.start()
    total = Report()
    errors = []
    got = 0
    while got < n:
        try:
            kind, rep = q.get(timeout=5)
        except Exception:  # noqa: BLE001
            dead = [p for p in ps if p.exitcode not in (None, 0)]
            if dead:
                raise RuntimeError(f"a worker died (exit {dead[0].exitcode})") from None
            continue
        got += 1
        if kind == "ok":
            total.merge(rep)
        else:
            errors.append(rep)
    for p in ps:
        p.join()
    if errors:
        raise RuntimeError(errors[0])
    return total


def start(prop):
    """Must run before any worker is forked."""
    Report.known = [e for e in known_findings() if e["property"] == prop]


def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e.get("status") == "known"]


def matches(entry, v):
    m = entry["match"]
    if "kind" in m and m["kind"] != v["kind"]:
        return False
    if "case" in m and m["case"] != v["case"]:
        return False
    if "cases" in m and v["case"] not in m["cases"]:
        return False
    if "site" in m and m["site"] != v.get("site"):
        return False
    if not ({"case", "cases", "site"} & set(m)):
        return False
    return True


def finish(prop, tier, rep, coverage, level, t0, assumptions=()):
    """Write evidence, print findings and violations; the exit code."""
    fresh = sorted(rep.violations, key=vkey)
    os.makedirs(os.path.join(env.VERIF, "evidence", "replays"), exist_ok=True)
    lines = []
    for n, v in enumerate(fresh[:5]):
        path = os.path.join(env.VERIF, "evidence", "replays", f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        lines.append(f"  case: {json.dumps(v['case'])}\n  {v['kind']}: {v['detail']}")
    for e in Report.known:
        print(f"KNOWN-FINDING: property={prop} {e['what']} (seen {rep.hits.get(e['id'], 0)} times in this run)")
    cov = dict(coverage)
    cov["samples"] = rep.samples[:8] or ["none"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": env.SEED,
        "level": level,
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(env.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, (int, str)) and k != "rule") + f", wall={ev['wall_s']}s")
    for line in lines:
        print(line)
    if fresh:
        print(f"{len(fresh)} violating cases kept of {rep.nviol}")
        return 1
    return 0
