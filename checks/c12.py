"""C12: every (stored, given) pair of values and configurations, in both modes."""
import itertools
import os

from mc import live, runner, termcheck, world
from mc import universes as U

LEVEL = "model_checking"
ASSUMPTIONS = ["hints are compared as Python modules: layout and documentation text do not count"]
POOL = [
    "1", "'s'", "None", "[1]", "[1, 2]", "['s']", "[1, 's']", "['s', 1]", "(1, 's')", "('s', 1)", "(1,)", "{1}", "frozenset([1])", "[]", "{}", "[[1]]", "[['s']]", "[[1], ['s']]",
    "{'a': 1}", "{'a': 's'}", "{'b': 1}", "{'a': 1, 'b': 1}", "{'b': 1, 'a': 1}", "{'a': {'b': 1}}", "{'a': {'b': 's'}}", "[{'a': 1}]", "[{'a': 1}, {'a': 1, 'b': 1}]", "{1: 1}", "{1: 's'}",
    "{'a': 1, 'doc': 'One.'}", "{'a': 1, 'doc': 'Another one.'}", "{'a': 1, 'doc': 'Long ' * 60}", "{'a': 's', 'doc': 'One.'}", "{'a': 1, 'doc': 'One\\n\\nclass Y: ...'}",
    "{'a b': 1, 'doc': 'One.'}", "{'a b': 1, 'doc': 'Two\\nlines ' * 30}", "{'a b': 's', 'doc': 'One.'}",
    "{'n': {'a': 1, 'doc': 'One.'}}", "{'n': {'a': 1, 'doc': 'Two. ' * 50}}", "{'n': {'a': 's', 'doc': 'One.'}}", "{'a': '\"\"\"', 'doc': 'has \"\"\" quotes'}", "{'a': 1, 'doc': 'has \"\"\" quotes'}",
    "fn_plain", "fn_any", "Custom()", "Child()", "Custom", "np.array([1])", "np.array([1.5])", "MappingProxyType({'a': 1})",
]
NAMES = ["A", "a", "_", "__x", "X1", "X10", "Xa", "É", "Éa", "日本", "ñandu", "straße", "x" * 60, "classes_created", "from_data2", "overload_", "data", "path", "Model", "class_", "ClassName", "X_X", "x__"]
DEFAULT = {"key_used_as_doc": "doc"}
CONFIGS = [DEFAULT, {}, {"list_strategy": "Sequence"}, {"dict_strategy": "dict"}, {"typed_dict_read_only_values": True}, {"min_height_to_define_type_alias": 0}]
DOCUMENTS = [
    "a: 1\nb: [1]\n", "a: 1 # First\nb: [1]\n", "a: 1\nb: [1] # Second\n", f"a: 1 # {'Very long comment ' * 20}\nb: [1] # Second\n", "a: s # First\nb: [1]\n", "a: 1 # First\nb: [s]\n",
    "a: 1 # \"\"\" quotes\nb: [1]\n", "a: 1 # a: str\nb: [1]\n", "a: 1\nb: [1]\nc: 1 # New\n", "n:\n  a: 1 # First\n", "n:\n  a: 1\n", "n:\n  a: s\n",
]


def load_yaml(path):
    import yaml

    with open(path) as f:
        return yaml.safe_load(f)


class Given:
    """Something to generate from: a value, or a YAML document."""

    def __init__(self, sb, what, config, k, name="X"):
        self.what, self.config, self.name = what, config, name
        self.path = None
        if "\n" in what and not what.startswith(("{", "[")):
            self.path = os.path.join(sb.root, f"doc{k}.yaml")
            with open(self.path, "w") as f:
                f.write(what)
        self.hints = sb.expected(self.value(), name, config)

    def value(self):
        return load_yaml(self.path) if self.path else world.build(self.what)

    def generate(self, sb, mode):
        inst = sb.Live(sb.Strategies(**self.config), mode)
        if self.path:
            return inst.from_yaml_file(load_yaml, self.path, class_name=self.name)
        return inst.from_data(self.value(), class_name=self.name)


def judge(case, rep, sb):
    sb.clear()
    name = case.get("name", "X")
    (w1, c1), (w2, c2) = case["stored"], case["given"]
    first, second = Given(sb, w1, c1, 1, name), Given(sb, w2, c2, 2, name)
    for other, value in case.get("others", []):
        sb.Live().from_data(world.build(value), class_name=other)
    others = sb.observe()
    first.generate(sb, case.get("first_mode", "overwrite"))
    if sb.observe() != {**others, name: first.hints}:
        rep.violation(case, "first", "a class name not existing yet is not stored as given")
        return
    before = sb.snapshot()
    accept = case["mode"] == "overwrite" or first.hints == second.hints
    try:
        second.generate(sb, case["mode"])
        accepted = True
    except sb.pkg.generators.lazy_type_hint_live.LazyTypeHintLiveError:
        accepted = False
    rep.seen("outcomes", (accepted, first.hints, second.hints))
    if accepted != accept:
        rep.violation(case, "decision", f"accepted: {accepted}, but the hints are {'equal' if first.hints == second.hints else 'different'}")
    if not accepted and sb.snapshot() != before:
        rep.violation(case, "rejection changed files", sorted(p for p in set(before) | set(sb.snapshot()) if before.get(p) != sb.snapshot().get(p)))
    if accepted and sb.observe() != {**others, name: second.hints}:
        rep.violation(case, "stored", "the stored hints are not those of the accepted data")


def cases(tier):
    for a, b in itertools.product(POOL, repeat=2):
        for mode in ("validate", "overwrite"):
            yield {"stored": [a, DEFAULT], "given": [b, DEFAULT], "mode": mode, "first_mode": "validate"}
    for v in ("[[1]]", "{'a': 1, 'b': [1, 2]}", "{'a': 1, 'doc': 'One.'}", "[{'a': 1}, {'b': 1}]"):
        for c1, c2 in itertools.product(CONFIGS, repeat=2):
            yield {"stored": [v, c1], "given": [v, c2], "mode": "validate"}
    for a, b in itertools.product(DOCUMENTS, repeat=2):
        for mode in ("validate", "overwrite"):
            yield {"stored": [a, {}], "given": [b, {}], "mode": mode, "others": [["A", "[1]"], ["XX", "{'X': 1}"]]}
    for name in NAMES:
        for (a, b), m, others in itertools.product([("[1]", "['s']"), ("[1]", "[2]"), ("{'a': 1, 'doc': 'One.'}", "{'a': 1, 'doc': 'Two.'}"), ("{'a': {'b': 1}}", "{'a': {'b': 's'}}")], ("validate", "overwrite"), ([], [["A", "[1]"], ["XX", "{'X': 1}"]])):
            yield {"stored": [a, DEFAULT], "given": [b, DEFAULT], "mode": m, "name": name, "others": others}
    for crowd in live.CROWDS:
        for k in range(0, len(crowd), 3):
            name, others = crowd[k], [[o, "[1]"] for o in crowd[:k] + crowd[k + 1 :]]
            for a, b, m in (("[1]", "['s']", "validate"), ("['s']", "['t']", "validate"), ("{'a': 1}", "{'a': 's'}", "overwrite")):
                yield {"stored": [a, DEFAULT], "given": [b, DEFAULT], "mode": m, "name": name, "others": others}
    instances = [[{}, "validate"], [{}, "overwrite"], [{"list_strategy": "Sequence"}, "validate"]]
    yield from live.instance_cases(instances, ["A"], 2)
    yield from live.instance_cases(instances[:2], ["A"], 4 if tier == "thorough" else 3)
    yield from live.instance_cases(instances[:2], ["A", "B"], 2)
    if tier == "thorough":
        more = list(U.structure(4)) + list(U.numbers(3))
        for a in more:
            for b in POOL[3:20]:
                yield {"stored": [a, DEFAULT], "given": [b, DEFAULT], "mode": "validate"}
        small = list(U.structure(3))
        for a, b in itertools.product(small, repeat=2):
            yield {"stored": [a, DEFAULT], "given": [b, DEFAULT], "mode": "validate"}


def run(tier):
    todo = list(cases(tier))

    def work(items, i, n, rep):
        sb = live.Sandbox()
        try:
            for case in items[i::n]:
                rep.count("executions")
                if "instances" in case:
                    for k in range(len(case["history"]) + 1):
                        rep.seen("states", str((case["instances"], case["history"][:k])))
                    for k in range(len(case["history"])):
                        rep.seen("transitions", str((case["instances"], case["history"][: k + 1])))
                else:
                    rep.seen("states", str((case.get("name"), case["stored"])))
                    rep.seen("states", str((case.get("name"), case["stored"], case["given"], case["mode"])))
                    rep.seen("transitions", str((case.get("name"), case["stored"], case["given"], case["mode"])))
                if rep.counts["executions"] % 299 == 1:
                    rep.sample(case)
                termcheck.guarded(lambda c, r: (live.judge_instances if "instances" in c else judge)(c, r, sb), case, rep)
        finally:
            sb.close()

    rep = runner.parallel(work, todo)
    return rep, termcheck.coverage(rep, "every ordered pair of pool values and of documented YAML files in both modes, every pair of configurations, every listed class name, and every history of several instances with different modes created in every order; a state is what is stored, a transition a second generation for the same class name")


def replay(case, rep):
    sb = live.Sandbox()
    termcheck.guarded(lambda c, r: (live.judge_instances if "instances" in c else judge)(c, r, sb), case, rep)
