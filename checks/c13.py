"""C13: every interruption of a live generation or reset, every interruption of
the operation after it, then recovery."""
import itertools
import os

from mc import live, runner, seam, termcheck, world

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["the process dies between two file-system effects or inside one write (which keeps a prefix of its content); effects reach the disk in program order", "power loss is not modelled"]
VALUE = {"A": "[1]", "B": "{'a': {'b': 's'}}", "É": "[[1], ['s']]", "A2": "(1, 's')", **{f"K{i}": f"{{'k': [{{'i{i}': 1}}]}}" for i in range(12)}, "Z" * 60: "{'a b': '%s'}" % ("x" * 50)}
# earlier classes, the operation that is interrupted, the later generation
STARTS = [[], ["A"], ["A", "B"], ["A", "B", "É"], ["Z" * 60, *(f"K{i}" for i in range(12))]]
OPERATIONS = [["gen", "N", "[{'k': [1]}]"], ["gen", "A", "{'changed': 's'}"], ["reset"], ["yaml", "Y", "a: 1 # First\nb: [1]\n"]]
OPERATIONS.append(["gen", "Big", "{" + ", ".join(f"'key{i}': {{'k{i}': [{i}, '{i}']}}" for i in range(60)) + "}"])
LATER = [["again"], ["gen", "L", "[1.5]"]]
DOUBLE = [["crash", 0], ["torn", 0.5], ["fail", 0]]
HOW = [["crash", 0], ["torn", 0.0], ["torn", 0.5], ["torn", 0.97], ["fail", 0], ["full", 0.5]]


def load_yaml(path):
    import yaml

    with open(path) as f:
        return yaml.safe_load(f)


def perform(sb, op, mode="overwrite"):
    """{name: hints} the operation stores, or None for a reset."""
    if op[0] == "reset":
        sb.Live.reset()
        return None
    inst = sb.Live(if_type_hint_exists=mode)
    if op[0] == "yaml":
        inst.from_yaml_file(load_yaml, yaml_file(sb, op), class_name=op[1])
    else:
        inst.from_data(world.build(op[2]), class_name=op[1])
    return None


def yaml_file(sb, op):
    path = os.path.join(sb.root, "doc.yaml")
    with open(path, "w") as f:
        f.write(op[2])
    return path


def effect(sb, op, model):
    if op[0] == "reset":
        return {}
    value = load_yaml(yaml_file(sb, op)) if op[0] == "yaml" else world.build(op[2])
    return {**model, op[1]: sb.expected(value, op[1])}


def prepare(sb, start):
    sb.clear()
    model = {}
    for name in start:
        sb.Live().from_data(world.build(VALUE[name]), class_name=name)
        model[name] = sb.expected(world.build(VALUE[name]), name)
    if sb.observe() != model:
        raise live.Broken("the starting point itself is not stored properly")
    return model


def interrupted(case, rep, sb, model, op, at, how):
    """Stop op at an effect; what is stored then (None: a violation, or it was
    not reached)."""
    done = effect(sb, op, model)
    stop = seam.Stopper(at, how[0], how[1])
    before = sb.snapshot()
    with seam.Seam([sb.package], stop):
        try:
            perform(sb, op)
            outcome = "returned"
        except seam.Crash:
            outcome = "died"
        except OSError:
            outcome = "failed"
    if stop.hit is None:
        return None
    rep.seen("outcomes", (outcome, stop.hit[0], os.path.basename(str(stop.hit[1])) if not str(stop.hit[1]).endswith(".tmp") else "", sorted(sb.snapshot()) == sorted(before)))
    if outcome == "died":
        sb.load()  # a new process
    try:
        now = sb.observe()
    except live.Broken as b:
        rep.violation(case, "after interruption", str(b))
        return False
    if now != model and now != done:
        rep.violation(case, "after interruption", f"listed {sorted(now)}; before {sorted(model)}, if completed {sorted(done)}; different hints: {sorted(k for k in now if now[k] not in (model.get(k), done.get(k)))}")
        return False
    if outcome == "returned" and now != done:
        rep.violation(case, "after interruption", "the operation returned but is not stored")
        return False
    for path, content in sb.snapshot().items():
        name = os.path.basename(path)
        if path.endswith(".py") and not name.startswith(".") and before.get(path) != content:
            try:
                live.stripped(content.decode("utf-8"), name[:-3])
            except (live.Broken, UnicodeDecodeError) as b:
                rep.violation(case, "truncated", f"{name}: {b}")
    return now


def recovers(case, rep, sb, now, later):
    perform(sb, later)
    want = effect(sb, later, now)
    try:
        after = sb.observe()
    except live.Broken as b:
        rep.violation(case, "recovery", str(b))
        return
    if after != want:
        rep.violation(case, "recovery", f"after recovering, listed {sorted(after)} instead of {sorted(want)}, or other hints")


def judge(case, rep, sb):
    op, later = case["op"], case["later"]
    if "second" in case:  # the operation after an interruption is interrupted as well, at each effect
        second, how = case["second"]
        for at in itertools.count() if case.get("at2") is None else [case["at2"]]:
            one = {**case, "at2": at}
            model = start(one, rep, sb)
            now = model and interrupted(one, rep, sb, model[0], op, case["at"], case["how"])
            if now is None or now is False:
                return
            now = interrupted(one, rep, sb, now, second, at, how)
            if now is None or now is False:
                return
            rep.count("executions")
            rep.count("double interruptions")
            recovers(one, rep, sb, now, later if later != ["again"] else second)
        return
    rep.count("executions")
    model = start(case, rep, sb)
    if not model:
        return
    now = interrupted(case, rep, sb, model[0], op, case["at"], case["how"])
    if now is None:
        rep.violation(case, "harness", "the operation did not reach this effect")
    elif now is not False:
        recovers(case, rep, sb, now, later if later != ["again"] else op)


def start(case, rep, sb):
    try:
        return [prepare(sb, case["start"])]
    except live.Broken as b:
        rep.violation(case, "start", str(b))
        return None


def cases(sb, tier):
    for start in STARTS:
        for op in OPERATIONS if len(start) < 5 else OPERATIONS[:3]:
            prepare(sb, start)
            rec = seam.Recorder()
            with seam.Seam([sb.package], rec):
                perform(sb, op)
            for at, (kind, _) in enumerate(rec.effects):
                for how in HOW:
                    if how[0] in ("torn", "full") and kind != "content":
                        continue
                    for later in LATER:
                        yield {"start": start, "op": op, "at": at, "how": how, "later": later}
                if len(start) == 2:
                    plain = [o for o in OPERATIONS if o[1:2] != ["Big"]]
                    for how, second, how2 in itertools.product(DOUBLE[:2], plain if op in plain else [], DOUBLE[:1] if tier == "quick" else DOUBLE[::2]):
                        if how[0] != "torn" or kind == "content":
                            yield {"start": start, "op": op, "at": at, "how": how, "second": [second, how2], "later": ["again"]}


def run(tier):
    todo = []

    def collect(_, i, n, rep):
        sb = live.Sandbox()
        try:
            rep.samples = [list(cases(sb, tier))]
        finally:
            sb.close()

    def guarded_collect(items, i, n, rep):
        termcheck.guarded(lambda c, r: collect(items, i, n, r), {"collect": True}, rep)

    if tier == "thorough":
        HOW.extend([["torn", k / 16] for k in range(1, 16)] + [["full", k / 8] for k in range(8)])
        STARTS.extend([["B"], ["É", "A2"], ["A", "B", "É", "A2"]])
        OPERATIONS.extend([["gen", "É", "[1]"], ["gen", "AA", "{'a b': {'c': 1}}"], ["gen", "B", "1"]])
        LATER.extend([["reset"], ["gen", "A", "{'x': 1}"], ["yaml", "Y", "a: s # First\n"]])
    got = runner.parallel(guarded_collect, [0, 1], 2)  # in processes of their own, for isolation
    if got.violations:
        return got, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "collecting the effects"}
    todo = got.samples[0]

    def work(items, i, n, rep):
        sb = live.Sandbox()
        try:
            for case in items[i::n]:
                rep.count("cases")
                rep.seen("points", str((case["start"], case["op"], case["at"], case["how"], case.get("second"))))
                if rep.counts["cases"] % 99 == 1:
                    rep.sample(case)
                termcheck.guarded(lambda c, r: judge(c, r, sb), case, rep)
        finally:
            sb.close()

    rep = runner.parallel(work, todo)
    return rep, {
        "evaluations": rep.counts.get("executions", 0),
        "distinct_nontrivial": len(rep.sets.get("points", ())),
        "double_interruptions": rep.counts.get("double interruptions", 0),
        "distinct_outcomes": len(rep.sets.get("outcomes", ())),
        "rule": "every file-system effect of every operation from every starting point x every way of stopping there (death before it, death inside a write keeping a prefix, failure, failure inside a write) x every later operation; the same again with the operation after the interruption stopped at each of its effects; non-trivial: distinct (start, operation, effect, way), each of which did stop the operation",
        "exhaustive": True,
    }


def replay(case, rep):
    sb = live.Sandbox()
    termcheck.guarded(lambda c, r: judge(c, r, sb), case, rep)
