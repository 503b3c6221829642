"""C14: all schedules, up to a preemption bound, of threads generating live
type hints, on the real code under a controlled scheduler."""
import fcntl
import multiprocessing
import os
import shutil
import time

from mc import live, runner, sched, seam, world

LEVEL = "model_checking"
ASSUMPTIONS = [
    "threads switch at locks, at file operations, at reads of the package's files and (line exploration) at lines of its source; what happens between two such points is one step",
    "locks are taken through the threading module, fcntl.flock or fcntl.lockf",
    "at most the stated number of preemptions per schedule",
]
VALUES = {"1": "{'a': 1}", "2": "{'a': {'b': 's'}}", "3": "[1, 's']"}

# threads: [how, class name, value]; how: shared / own (made before) / new (made in the thread) / twice
SCENARIOS = {
    "two classes, own instances": {"threads": [["own", "A", "1"], ["own", "B", "2"]]},
    "two classes, one instance": {"threads": [["shared", "A", "1"], ["shared", "B", "2"]]},
    "two classes, new instances": {"threads": [["new", "A", "1"], ["new", "B", "3"]]},
    "one class, own instances": {"threads": [["own", "A", "1"], ["own", "A", "2"]]},
    "one class, one instance": {"threads": [["shared", "A", "2"], ["shared", "A", "3"]]},
    "an existing and a new class": {"existing": [["A", "1"]], "threads": [["own", "A", "2"], ["own", "B", "1"]]},
    "two more classes": {"existing": [["A", "1"], ["AB", "2"]], "threads": [["shared", "B", "1"], ["own", "C", "2"]]},
    "validation of an existing class": {"existing": [["A", "1"]], "threads": [["validate", "A", "1"], ["own", "B", "2"]]},
    "validation during an overwrite": {"existing": [["A", "1"]], "threads": [["validate", "A", "1"], ["own", "A", "2"]]},
    "a YAML file and data": {"threads": [["yaml", "A", "1"], ["own", "B", "2"]]},
    "three classes": {"threads": [["own", "A", "1"], ["own", "B", "2"], ["own", "C", "1"]], "big": True},
    "two generations each": {"threads": [["twice", "A", "1"], ["twice", "B", "2"]], "big": True},
    "three on one instance": {"existing": [["A", "1"]], "threads": [["shared", "A", "2"], ["shared", "B", "2"], ["shared", "C", "1"]], "big": True},
}


class Controller:
    """Scheduling points at every effect; another process looks after each."""

    def __init__(self, bench):
        self.bench = bench
        self.observing = False
        self.on = False

    def at(self, kind, path):
        if self.on and not self.observing:
            sched.current.point((kind, os.path.basename(path)))
        return None

    def after(self, kind, path):
        if self.on and not self.observing and sched.current.me() is not None:
            self.observing = True
            try:
                self.bench.look(f"after {kind} of {os.path.basename(str(path))}")
            finally:
                self.observing = False

    def torn(self):
        pass


class Bench:
    def __init__(self):
        import numpy, pandas, yaml  # noqa: F401,E401

        sb = self.sb = live.Sandbox(before_import=lambda: None)

        def modules():
            import sys

            return [m for n, m in sys.modules.items() if n.split(".")[0] == "lazy_type_hint"]

        sched.faked_locks(sb.load, modules)
        self.yaml = os.path.join(sb.root, "d.yaml")
        with open(self.yaml, "w") as f:
            f.write("a: 1\n")
        self.expect = {}
        for n in ("A", "B", "C", "AB", "A2", "B2"):
            for v, e in VALUES.items():
                self.expect[n, v] = sb.expected(world.build(e), n)
        self.controller = Controller(self)
        self.initial = {}
        self.names = set(os.listdir(sb.generators))
        self.cache = {}

    def start(self, scenario):
        sb = self.sb
        self.wipe()
        existing = tuple(map(tuple, scenario.get("existing", ())))
        if existing not in self.initial:
            sb.clear()
            for n, v in existing:
                sb.Live().from_data(world.build(VALUES[v]), class_name=n)
            self.initial[existing] = sb.snapshot()
            self.wipe()
        for p, c in self.initial[existing].items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(c)
        self.problems = []
        self.allowed = {n: {v} for n, v in existing}
        for how, n, v in scenario["threads"]:
            if how != "validate":
                self.allowed.setdefault(n, set()).add(v)
                if how == "twice":
                    self.allowed.setdefault(n + "2", set()).add(v)
        self.finished = {n: set(vs) for n, vs in self.allowed.items() if n in dict(existing)}
        shared = sb.Live() if any(t[0] == "shared" for t in scenario["threads"]) else None
        bodies = []
        for how, n, v in scenario["threads"]:
            inst = {"shared": lambda: shared, "own": sb.Live, "twice": sb.Live, "yaml": sb.Live, "validate": lambda: sb.Live(if_type_hint_exists="validate"), "new": lambda: None}[how]()
            bodies.append(self.body(how, inst, n, v))
        return bodies

    def wipe(self):
        g = self.sb.generators
        for n in os.listdir(g):
            if n not in self.names:
                p = os.path.join(g, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)

    def body(self, how, inst, n, v):
        def run():
            i = inst or self.sb.Live()
            value = world.build(VALUES[v])
            if how == "yaml":
                i.from_yaml_file(lambda p: world.build(VALUES[v]), self.yaml, class_name=n)
            else:
                i.from_data(value, class_name=n)
            if how != "validate":
                self.finished[n] = True
            if how == "twice":
                i.from_data(value, class_name=n + "2")
                self.finished[n + "2"] = True
            return True

        return run

    def look(self, when):
        """What another process sees now."""
        sb = self.sb
        try:
            with open(sb.stub, encoding="utf-8", errors="replace") as f:
                text = f.read()
        except FileNotFoundError:
            text = None
        try:
            if text is None:
                listed = []
            elif (text, bool(self.finished)) in self.cache:
                listed = self.cache[text, bool(self.finished)]
            else:
                compile(text, "stub", "exec")
                listed = live.parse_stub(text) if self.finished else []
                self.cache[text, bool(self.finished)] = listed
        except (SyntaxError, ValueError, live.Broken) as e:
            self.problems.append(("stub", f"{when}: the stub is broken: {e}"))
            return
        for n in self.finished:
            if n not in listed:
                self.problems.append(("lost", f"{when}: {n}, already generated, is not listed"))
                return
            try:
                with open(os.path.join(sb.build, n + ".py"), encoding="utf-8", errors="replace") as f:
                    text = f.read()
            except FileNotFoundError:
                text = "missing"
            if (n, text) not in self.cache:
                try:
                    got = live.stripped(text, n)
                except live.Broken:
                    got = None
                self.cache[n, text] = got in [self.expect[n, v] for v in self.allowed[n]]
            if not self.cache[n, text]:
                self.problems.append(("lost", f"{when}: the stored module of {n} does not hold its type hints: {text[:60]!r}"))
                return

    def judge(self, s, scenario, rep, case):
        if s.deadlock:
            rep.violation(case, "deadlock", f"no thread can continue: {s.deadlock}")
            return
        for i, e in enumerate(s.error):
            if e is None:
                continue
            how, n, v = scenario["threads"][i]
            if how == "validate" and type(e).__name__ == "LazyTypeHintLiveError" and len(self.allowed[n]) > 1:
                continue
            rep.violation(case, "raised", f"thread {i} ({how} {n}): {type(e).__name__}: {e}")
            return
        self.look("in the end")
        if self.problems:
            rep.violation(case, *self.problems[0])
            return
        try:
            seen = self.sb.observe()
        except live.Broken as e:
            rep.violation(case, "broken", str(e))
            return
        for n, vs in self.allowed.items():
            if seen.get(n) not in [self.expect[n, v] for v in vs]:
                rep.violation(case, "lost", f"{n} is not stored with its hints")
                return
        if set(seen) != set(self.allowed):
            rep.violation(case, "extra", f"listed: {sorted(seen)}")
        rep.seen("outcomes", tuple(sorted((k, hash(x)) for k, x in seen.items())))
        rep.seen("states", tuple(s.trace))


class Patched:
    """Effects, reads, file locks and sleeps become scheduling points."""

    def __init__(self, bench):
        self.bench = bench

    def __enter__(self):
        sb = self.bench.sb
        c = self.bench.controller
        self.seam = seam.Seam([sb.generators], c, reads=True, halves=True)
        self.seam.__enter__()
        c.on = True
        self.saved = fcntl.flock, fcntl.lockf, time.sleep

        def flock(real_one):
            def call(fd, op, *a):
                s = sched.current
                if s is None or s.me() is None or op & fcntl.LOCK_UN:
                    r = real_one(fd, op, *a)
                    if s is not None and s.me() is not None:
                        s.point(("unlock",))
                    return r
                s.point(("lock",))
                while True:
                    try:
                        return real_one(fd, op | fcntl.LOCK_NB, *a)
                    except BlockingIOError:
                        if op & fcntl.LOCK_NB:
                            raise
                        s.pause(("blocked",))

            return call

        def sleep(seconds):
            s = sched.current
            if s is None or s.me() is None:
                return self.saved[2](seconds)
            s.pause(("sleep",))

        fcntl.flock, fcntl.lockf, time.sleep = flock(fcntl.flock), flock(fcntl.lockf), sleep
        return self

    def __exit__(self, *exc):
        self.bench.controller.on = False
        fcntl.flock, fcntl.lockf, time.sleep = self.saved
        self.seam.__exit__(*exc)


def lines_of(sb, mode):
    """Which files' lines or function calls are scheduling points as well."""
    if mode is None:
        return None
    inside = (sb.generators if mode == "generators" else sb.package) + os.sep
    how = "call" if mode == "calls" else "line"
    return lambda f: how if f.startswith(inside) else False


def explorations(tier):
    """(scenario, preemption bound, lines)"""
    for name, sc in SCENARIOS.items():
        big = sc.get("big")
        if tier == "quick":
            yield name, 1 if big else 2, None
            if not big:
                yield name, 1, "generators"
            if name in ("two classes, own instances", "one class, one instance", "a YAML file and data"):
                yield name, 1, "calls"
        else:
            deep = name in ("two classes, own instances", "one class, one instance", "a YAML file and data")
            yield name, 2 if big else 4 if deep else 3, None
            yield name, 1, "generators"
            if not big:
                yield name, 1, "calls"


def controlled(bench, scenario, prefix, lines):
    """One schedule again."""
    with Patched(bench):
        bench.controller.on = False
        bodies = bench.start(scenario)
        bench.controller.on = True
        return sched.Scheduler(bodies, prefix, lines).run()


def run(tier):
    import pandas, yaml  # noqa: F401,E401

    parts = 8
    todo = [(k, *e) for e in sorted(explorations(tier), key=lambda e: (e[2] is None, e[1] < 2)) for k in range(parts)]
    position = multiprocessing.Value("i", 0)

    def take():
        with position.get_lock():
            position.value += 1
            return todo[position.value - 1] if position.value <= len(todo) else None

    def work(items, i, n, rep):
        cores = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cores[i % len(cores)]})  # only one thread runs at a time
        bench = Bench()
        for sc in SCENARIOS.values():  # warm up every cache
            for b in bench.start(sc):
                b()
        for part, name, bound, lines in iter(take, None):
            scenario = SCENARIOS[name]
            def make():
                bench.controller.on = False
                bodies = bench.start(scenario)
                bench.controller.on = True
                return bodies

            def judge(s):
                bench.controller.on = False
                choices = [c for _, c, _ in s.steps]
                case = {"scenario": name, "lines": lines, "schedule": switches(s.steps)}
                bench.judge(s, scenario, rep, case)
                if s.diverged:
                    rep.count("divergences")
                if rep.counts.get("executions", 0) % 499 == 0:
                    rep.sample({"scenario": name, "schedule": case["schedule"], "steps": len(choices)})
                rep.count("executions")

            with Patched(bench):
                schedules, transitions = sched.explore(make, bound, judge, lines_of(bench.sb, lines), (part, parts))
            rep.count("schedules", schedules)
            rep.count("transitions", transitions)
            rep.count(f"schedules {name}, {bound} preemptions" + (", " + {"calls": "calls in the package"}.get(lines, f"lines of {lines}") if lines else ""), schedules)
        bench.sb.close()

    rep = runner.parallel(work, todo)
    return rep, {
        "states": len(rep.sets.get("states", ())),
        "transitions": rep.counts.get("transitions", 0),
        "traces_validated_against_impl": rep.counts.get("schedules", 0),
        "distinct_outcomes": len(rep.sets.get("outcomes", ())),
        "divergences": rep.counts.get("divergences", 0),
        "per_scenario": {k[10:]: v for k, v in rep.counts.items() if k.startswith("schedules ")},
        "rule": "every schedule of each scenario within its preemption bound; states are the distinct traces of scheduling points",
        "exhaustive": True,
    }


def switches(steps):
    """Only where the choice was not the default one: {step: thread}."""
    out = {}
    for k, (enabled, chosen, me) in enumerate(steps):
        default = me if me in enabled else enabled[0]
        if chosen != default:
            out[str(k)] = chosen
    return out


def replay(case, rep):
    bench = Bench()
    scenario = SCENARIOS[case["scenario"]]
    for sc in SCENARIOS.values():
        for b in bench.start(sc):
            b()
    lines = lines_of(bench.sb, case["lines"])
    prefix = []
    for k, who in sorted((int(k), w) for k, w in case["schedule"].items()):
        s = controlled(bench, scenario, prefix, lines)
        prefix = [c for _, c, _ in s.steps[:k]] + [who]
    s = controlled(bench, scenario, prefix, lines)
    bench.judge(s, scenario, rep, case)
    print("trace (thread, point):", s.trace[:400])
