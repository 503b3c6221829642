"""C11: every history of live generations and resets against a reference map
{class name: hints of its latest generation}."""
import itertools
import os

from mc import live, runner, termcheck, world

LEVEL = "model_checking"
ASSUMPTIONS = ["generations happen one after another (C14 interleaves them) and none is interrupted (C13 interrupts them)", "class names equal to names the interface itself uses are excluded"]
VALUES = ["[1]", "{'a': {'b': 's'}}"]
SHORT = len(VALUES)  # The ones of the histories to a depth; all of them follow one another
VALUES += ["['s']", "[None]", "{'a': {'b': 1}}", "{'b': {'a': 's'}}", "{'a': {'c': 's'}}", "{'a': 1}", "[{'a': 1}, {'a': 1, 'b': 's'}]", "[]", "1", "{1, 's'}", "[{'a': 1}]", "[{'b': 1}]", "(1, 's')", "('s', 1)"]
WHO = ["old", "other", "new"]
NAMES = ["A", "AA"]
OPS = [["gen", who, name, v] for who in WHO for name in NAMES for v in range(SHORT)] + [["yaml", "old", "A", 0], ["yaml", "new", "B", 0], ["reset", "class"], ["reset", "other"]]
MANY = ["A", "AB", "B", "a", "_", "__x", "X1", "X10", "É", "日本", "classes_created", "class_name", "Literal_", "from_data", "from_data2", "reset", "overload_", "data", "path", "Model", "build", "x" * 60]
YAML = "a: 1 # First\nb: [1, 2]\n"


def setup():
    sb = live.Sandbox()
    path = os.path.join(sb.root, "doc.yaml")
    with open(path, "w") as f:
        f.write(YAML)
    sb.yaml_path = path
    return sb


def load_yaml(path):
    import yaml

    with open(path) as f:
        return yaml.safe_load(f)


def judge(case, rep, sb):
    sb.clear()
    instances = {}
    model = {}
    for n, op in enumerate(case["history"]):
        if op[0] == "reset":
            instances.get("other", sb.Live).reset() if op[1] == "other" else sb.Live.reset()
            model = {}
            if sb.stored_modules():
                rep.violation(case, "registry", f"operation {n} (reset) left modules {sb.stored_modules()}")
                return
        else:
            kind, who, name, v = op
            inst = sb.Live() if who == "new" or who not in instances else instances[who]
            if who != "new":
                instances[who] = inst
            if kind == "gen":
                value = world.build(VALUES[v])
                if inst.from_data(value, class_name=name) is not value:
                    rep.violation(case, "returned", f"operation {n} does not return the object given")
            else:
                value = load_yaml(sb.yaml_path)
                if inst.from_yaml_file(load_yaml, sb.yaml_path, class_name=name) != value:
                    rep.violation(case, "returned", f"operation {n} does not return what the loader yields")
            model[name] = sb.expected(value, name)
        try:
            seen = sb.observe()
        except live.Broken as b:
            rep.violation(case, "registry", f"after operation {n} {op}: {b}")
            return
        rep.seen("outcomes", str(sorted(seen.items())))
        if seen != model:
            wrong = sorted(k for k in set(seen) | set(model) if seen.get(k) != model.get(k))
            rep.violation(case, "registry", f"after operation {n} {op}: listed {sorted(seen)}, expected {sorted(model)}, different: {wrong}")
            return


def cases(depth):
    for d in range(1, depth + 1):
        for h in itertools.product(OPS, repeat=d):
            yield {"history": [list(o) for o in h]}
    for a, b in itertools.permutations(MANY, 2):
        yield {"history": [["gen", "new", a, 0], ["gen", "new", b, 1], ["gen", "old", a, 1]]}
    instances = [[{}, "overwrite"], [{"list_strategy": "Sequence", "min_height_to_define_type_alias": 0}, "overwrite"], [{"dict_strategy": "dict"}, "overwrite"]]
    yield from live.instance_cases(instances, ["A"], 2)
    yield from live.instance_cases(instances[:2], ["A"], depth)
    yield from live.instance_cases(instances[:2], ["A", "B"], 2)
    # every value stored over every other one (some of them have hints of the same size)
    for a, b in itertools.permutations(range(len(VALUES)), 2):
        for who in WHO:
            yield {"history": [["gen", "old", "A", a], ["gen", "old", "AA", b], ["gen", who, "A", b], ["gen", "old", "A", a]]}
    # many classes at the same time
    for names in live.CROWDS:
        yield {"history": [["gen", "old", n, 0] for n in names] + [["gen", "new", n, 1] for n in names[::-5]] + [["gen", "other", "Last", 1], ["reset", "other"], ["gen", "old", names[-1], 0]]}
    yield {"history": [["gen", "old", n, i % 2] for i, n in enumerate(MANY)] + [["gen", "new", MANY[0], 1], ["reset", "class"], ["gen", "old", "A", 0]]}


def run(tier):
    todo = list(cases(4 if tier == "thorough" else 3))

    def work(items, i, n, rep):
        sb = setup()
        try:
            for case in items[i::n]:
                rep.count("executions")
                h = case["history"]
                for k in range(len(h) + 1):
                    rep.seen("states", str(h[:k]))
                    if k:
                        rep.seen("transitions", str(h[:k]))
                if rep.counts["executions"] % 499 == 1:
                    rep.sample(case)
                termcheck.guarded(lambda c, r: (live.judge_instances if "instances" in c else judge)(c, r, sb), case, rep)
        finally:
            sb.close()

    rep = runner.parallel(work, todo)
    return rep, termcheck.coverage(rep, "every history of generations (3 kinds of instance, 2 class names, 2 values), YAML generations and resets to the depth of the tier, plus every value stored over every other of a longer list, every pair of listed class names, and every history of several instances with different strategies, created in every order; after each operation the stub and the modules are compared with the reference map")


def replay(case, rep):
    sb = setup()
    termcheck.guarded(lambda c, r: (live.judge_instances if "instances" in c else judge)(c, r, sb), case, rep)
