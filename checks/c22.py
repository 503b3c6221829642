"""C22: what a type checker understands of calls of the live generator, in
every reachable state of its stored files."""
import os
import re
import shutil

from mc import checker, env, live, oracle, runner, termcheck, universes as U, world
from checks.c21 import DF, unknown_class

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the type checker is the mypy installed with the verification tools",
    "pandas has no types of its own: the few names the modules mention are declared in stubs/pandas",
    "classes of the user, which modules only mention in quotes, are unknown to the type checker",
    "class names equal to names the interface itself uses are excluded",
]
SEQUENCE = {"list_strategy": "Sequence", "min_height_to_define_type_alias": 0}
STATES = {
    "quick": (["A", "AA"], [["[1]", {}], ["{'a': {'b': ['s']}}", {}], ["[[1]]", SEQUENCE], ["pd.DataFrame({'a': [1], 'b': ['s']})", {}]], 1),
    "thorough": (["A", "AA", "B_"], [["[1]", {}], ["{'a': {'b': ['s']}}", {}], ["[[1]]", SEQUENCE], ["pd.DataFrame({'a': [1], 'b': ['s']})", {}], ], 1),
}
OPEN = [e for e in dict.fromkeys([*U.kinds1(), *DF]) if not e.startswith("pd.Series")]
CONFIGS = [{}, {"min_height_to_define_type_alias": 0, "list_strategy": "Sequence", "dict_strategy": "Mapping"}, {"tuple_size_strategy": "any size", "min_height_to_define_type_alias": 3, "typed_dict_read_only_values": True}]
FRAME_CONFIGS = [{"pandas_strategies": "Type hint only for autocomplete"}, {"pandas_strategies": "Do not type hint columns"}]
GROUP = 12
MANY = ["A", "AB", "B", "a", "_", "_x", "X1", "X10", "É", "日本", "class_name", "Literal_", "from_data2", "overload_", "data", "path", "Model", "build", "strategies", "x" * 60]
YAML = "a: 1 # First\nb:\n  c: [s]\n"


class World:
    """One scratch copy of the package and the type checker's cache for it."""

    def __init__(self):
        self.sb = live.Sandbox()
        oracle.install_series_shim()
        self.clock = 1_000_000_000
        self.times = {}
        self.yaml = os.path.join(self.sb.root, "doc.yaml")
        with open(self.yaml, "w") as f:
            f.write(YAML)

    def snapshot(self):
        return {os.path.relpath(p, self.sb.package): c for p, c in self.sb.snapshot().items()}

    def restore(self, snapshot):
        self.sb.restore({os.path.join(self.sb.package, p): c for p, c in snapshot.items()})

    def apply(self, op):
        """Through an instance of its own."""
        kind = op[0]
        if kind == "reset":
            self.sb.Live.reset()
        elif kind == "gen":
            _, name, value, config = op
            self.sb.Live(self.sb.Strategies(**config)).from_data(world.build(value), class_name=name)
        else:
            self.sb.Live().from_yaml_file(load_yaml, self.yaml, class_name=op[1])

    def meaning(self, name, entry):
        """(IR a type checker should tell, its labels if a frame, text)"""
        value = load_yaml(self.yaml) if entry[0] == "yaml" else world.build(entry[0])
        text = self.sb.Plain(self.sb.Strategies(**entry[1])).from_data(value, class_name=name).to_string()
        ir = oracle.module(text).ir(name)
        labels = [(label[1], checker.comparable(t)) for label, t in ir[1]] if ir[0] == "df" else []
        return checker.comparable(ir), labels, text

    def ask(self, source):
        """(errors, revealed) about the client; the files changed since the
        last question get a new time, as the cache compares no contents."""
        client = os.path.join(self.sb.root, "client.py")
        with open(client, "w", encoding="utf-8") as f:
            f.write(source)
        now = {p: c for p, c in self.sb.files().items() if p.endswith((".py", ".pyi"))}
        with open(client, "rb") as f:
            now[client] = f.read()
        for p, c in now.items():
            if self.times.get(p, (None,))[0] != c:
                self.clock += 10
                self.times[p] = (c, self.clock)
            os.utime(p, (self.times[p][1],) * 2)
        errors, revealed = [], []
        for line in checker.run(self.sb.root, ["client.py"], cache=os.path.join(self.sb.root, "mypy")):
            m = re.match(r"(.+?):(\d+): (\w+): (.*)", line)
            if not m:
                raise checker.CannotCheck(line)
            path, no, kind, message = os.path.join(self.sb.root, m[1]), int(m[2]), m[3], m[4]
            r = re.fullmatch(r'Revealed type is "(.*)"', message)
            if r:
                revealed.append((no, r[1]))
            elif kind == "error" and (path not in self.sb.pristine):
                errors.append((os.path.relpath(path, self.sb.root), no, message))
        return errors, [a for _, a in sorted(revealed)]

    def close(self):
        self.sb.close()


def load_yaml(path):
    import yaml

    with open(path) as f:
        return yaml.safe_load(f)


HEAD = """from pathlib import Path
from typing import Any
from lazy_type_hint import LazyTypeHintLive, ParsingStrategies

class Given: ...
def load(path: str) -> Given: return Given()
live = LazyTypeHintLive()
strict = LazyTypeHintLive(ParsingStrategies(list_strategy="Sequence"), if_type_hint_exists="validate")
given = Given()
"""


def judge(case, rep, w):
    """case: history of operations, from an empty store."""
    w.sb.clear()
    model = {}
    for op in case["history"]:
        w.apply(op)
        model = step(model, op)
    check(case, model, rep, w)


def step(model, op):
    if op[0] == "reset":
        return {}
    if op[0] == "gen":
        return {**model, op[1]: [op[2], op[3]]}
    return {**model, op[1]: ["yaml", {}]}


def check(case, model, rep, w):
    names = [*model, *(["Absent", "A_"] if len(model) < 5 else ["Absent"])]
    lines, expected, texts = [], [], {}

    def question(expr, ir):
        lines.append(f"reveal_type({expr})")
        expected.append((expr, ir))

    for name in names:
        ir, labels, texts[name] = w.meaning(name, model[name]) if name in model else (("declared", None), [], "")
        named = {"declared"} if name in model else None
        for call in (f"live.from_data(given, class_name={name!r})", f"strict.from_data(given, {name!r})", f"live.from_yaml_file(load, 'x', class_name={name!r}, comments_are='side')"):
            question(call, ir)
            if not named:
                expected[-1] = (call, ("given",))
        for label, t in labels:
            question(f"live.from_data(given, class_name={name!r})[{label}]", t)
    lines.append("def any_name(name: str) -> None:")
    lines.append("    reveal_type(live.from_data(given, class_name=name))")
    expected.append(("an unknown class name", ("given",)))
    question("LazyTypeHintLive.reset()", ("none",))
    errors, answers = w.ask(HEAD + "\n".join(lines) + "\n")
    rep.count("executions")
    for path, no, message in errors:
        name, site = os.path.basename(path)[:-3], None
        if "/build/" in path and name in texts:
            with open(os.path.join(w.sb.root, path), encoding="utf-8") as f:
                stored = f.read()
            if unknown_class(message, stored):
                continue
            site = checker.known_site(message, stored.splitlines(), no)
        rep.violation(case, "static-error", f"{path}:{no}: {message}", site=site)
    if len(answers) != len(expected):
        rep.violation(case, "static-type", f"{len(answers)} answers for {len(expected)} questions; {errors[:3]}")
        return
    for (what, ir), answer in zip(expected, answers):
        if ir == ("given",):
            if answer != "client.Given":
                rep.violation(case, "static-type", f"{what}: understood {answer}, not the type of the object given")
            continue
        try:
            got = checker.nameless(checker.parse(re.sub(r"\blazy_type_hint\.generators\.build\.", "m0.", answer)))
            if got == ("object",) and ir == ("none",) and what != lines[-1][12:-1]:
                got = ir  # a type checker reads Optional[object], the hint of None, as object
        except (ValueError, SyntaxError) as e:
            rep.violation(case, "static-type", f"{what}: {answer} ({e})")
            continue
        if got != ir:
            rep.violation(case, "static-type", f"{what}: generated {checker.show(ir)}, understood {answer}")
        rep.seen("outcomes", checker.show(ir))


def reachable(names, values, w):
    """Every reachable (stored files, expected classes), with a shortest history."""
    ops = [["gen", n, v, c] for n in names for v, c in values] + [["yaml", names[0]], ["reset"]]
    w.sb.clear()
    start = (freeze(w.snapshot()), ())
    states = {start: ([], {})}
    frontier, edges = [start], 0
    while frontier:
        following = []
        for s in frontier:
            history, model = states[s]
            for op in ops:
                w.restore(dict(s[0]))
                w.apply(op)
                edges += 1
                m = step(model, op)
                t = (freeze(w.snapshot()), freeze({k: repr(v) for k, v in m.items()}))
                if t not in states:
                    states[t] = ([*history, op], m)
                    following.append(t)
        frontier = following
    return states, edges


def freeze(d):
    return tuple(sorted(d.items()))


def others(tier):
    """Histories that store many classes at once."""
    for config in CONFIGS:
        for k in range(0, len(OPEN), GROUP):
            yield {"history": [["gen", f"K{j}", e, config] for j, e in enumerate(OPEN[k : k + GROUP])]}
    for config in FRAME_CONFIGS:
        yield {"history": [["gen", f"K{j}", e, config] for j, e in enumerate(DF)]}
    for n in MANY:
        yield {"history": [["gen", n, "{'a': {'b': [1]}}", {}]]}
    yield {"history": [["gen", n, "[[1]]", SEQUENCE] for n in MANY]}
    yield {"history": [["gen", f"Class{n}", "[[1]]", SEQUENCE] for n in range(48)]}
    yield {"history": [["gen", n, "[[1]]", SEQUENCE] for n in MANY] + [["reset"]] + [["gen", n, "{'a': {'b': [1]}}", {}] for n in MANY[::-1]]}
    if tier == "thorough":
        for e in OPEN:
            for c in CONFIGS:
                yield {"history": [["gen", "A", "[1]", {}], ["gen", "A", e, c]]}


def isolate(case, rep, w):
    """The smallest of the operations of a failing group, on its own."""
    r = runner.Report()
    judge(case, r, w)
    if not r.violations or len(case["history"]) == 1:
        return absorb(rep, r)
    found = False
    for op in case["history"]:
        one = runner.Report()
        judge({"history": [op]}, one, w)
        found = found or bool(one.violations)
        absorb(rep, one)
    if not found:
        absorb(rep, r)


def absorb(rep, other):
    rep.merge(other)


def run(tier):
    names, values, _ = STATES[tier]
    rep = runner.Report()

    def explore_states(_, i, n, r):
        w = World()
        try:
            if i == 0:
                states, edges = reachable(names, values, w)
                r.samples = [(states, edges)]
        finally:
            w.close()

    ((states, edges),) = runner.parallel(explore_states, None, workers=2).samples
    todo = sorted(states.items(), key=lambda kv: (len(kv[1][0]), repr(kv[1])))
    groups = list(others(tier))

    def work(_, i, n, r):
        w = World()
        try:
            for (files, _m), (history, model) in todo[i::n]:
                def at(case, r):
                    w.restore(dict(files))
                    check(case, model, r, w)

                r.seen("states", repr((files, sorted(model))))
                if len(history) == 3:
                    r.sample({"history": history})
                termcheck.guarded(at, {"history": history}, r)
            for case in groups[i::n]:
                r.seen("states", repr(case))
                termcheck.guarded(lambda c, r: isolate(c, r, w), case, r)
        finally:
            w.close()

    rep.merge(runner.parallel(work, None))
    cov = termcheck.coverage(rep, "every reachable state of the stored files under generations of the listed classes and values, a YAML generation and resets (to the fixpoint), plus every kind of value and every listed class name; in each the type checker reads a client that calls every method for every class")
    cov["transitions"] = edges
    cov["reachable_states"] = len(states)
    return rep, cov


def replay(case, rep):
    w = World()
    try:
        termcheck.guarded(lambda c, r: judge(c, r, w), case, rep)
    finally:
        w.close()
