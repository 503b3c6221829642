"""C21: what a type checker understands of a generated module is what it says
when it is executed."""
import ast
import builtins
import os
import pickle
import re
import shutil
import tempfile

from mc import checker, gen, oracle, plans, runner, termcheck
from checks.c02 import NAMED, NAMES

U = plans.U
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the type checker is the mypy installed with the verification tools (it knows ReadOnly, unlike the one of the project)",
    "pandas has no types of its own: the few names the modules mention are declared in stubs/pandas",
    "classes of the user, which the module only mentions in quotes, are unknown to the type checker",
]
BATCH = 1500
DF = ["pd.DataFrame({'a': [1], 'b': ['s']})", "pd.DataFrame({1: [1], True: ['s']}) if False else pd.DataFrame({1: [1.5], 2: ['s']})", "pd.DataFrame({'a b': [1.5], \"it's\": [None]})", "pd.DataFrame([[1, 's']], columns=pd.MultiIndex.from_tuples([('a', 'x'), ('b', 'y')]))", "pd.DataFrame({True: [1], 'a': [[1]]})", "pd.DataFrame({'a': [{'k': 1}]})"]
DF_CONFIGS = [{}, {"pandas_strategies": "Type hint only for autocomplete"}, {"pandas_strategies": "Do not type hint columns"}, {"min_height_to_define_type_alias": 0}, {"min_height_to_define_type_alias": 3}]
READ_ONLY = [{"typed_dict_read_only_values": True}, {"typed_dict_read_only_values": True, "merge_different_typed_dicts_if_similarity_above": 1}, {"key_used_as_doc": "a"}]


def plan(tier):
    O = plans.once
    out = [
        *plans.generic(tier),
        ("data frames", lambda: [w for e in DF for w in (e, *U.wraps(e))], DF_CONFIGS),
        ("read-only groups of 2 dicts", O(U.dict_groups, 2, values=["1", "1.5", "[1]"]), READ_ONLY),
        ("read-only nested keys", O(U.nested_names, 3), READ_ONLY),
        ("read-only keys", U.keys1, READ_ONLY[:1]),
    ]
    return out


def generate(tier, root):
    """All different texts, each with the smallest case that gives it."""
    todo = plan(tier)

    def work(_, i, n, rep):
        mine = {}

        def judge(case, r):
            text = gen.text(case["value"], case["config"], case.get("name", "X"))
            key = (text, case.get("name", "X"))
            if key not in mine or runner.vkey({"case": case}) < runner.vkey({"case": mine[key]}):
                mine[key] = case

        for label, exprs, configs in todo:
            for k, e in enumerate(exprs()):
                if k % n == i:
                    rep.seen("states", e)
                    for c in configs:
                        rep.count("generated")
                        rep.count("executions " + label)
                        termcheck.guarded(judge, {"value": e, "config": c}, rep)
        for case in [{"value": v, "config": c, "name": x} for v in NAMED for c in U.ONE_FACTOR for x in NAMES][i::n]:
            rep.seen("states", case["value"])
            rep.count("generated")
            rep.count("executions class names")
            termcheck.guarded(judge, case, rep)
        with open(os.path.join(root, str(i)), "wb") as f:
            pickle.dump(mine, f)

    rep = runner.parallel(work, None)
    rep.violations, rep.nviol = [], 0  # C01 decides what may fail
    texts = {}
    for name in sorted(os.listdir(root)):
        with open(os.path.join(root, name), "rb") as f:
            for key, case in pickle.load(f).items():
                if key not in texts or runner.vkey({"case": case}) < runner.vkey({"case": texts[key]}):
                    texts[key] = case
    return rep, texts


def questions(text, name):
    """(source to be checked, first line of the questions, IR expected per question)"""
    oracle.install_series_shim()
    ir = oracle.module(text).ir(name)
    lines = [f"def questions_(value_: {name}) -> None:", "    reveal_type(value_)"]
    expected = [("the type", checker.comparable(ir))]
    if ir[0] == "df":
        for label, t in ir[1]:
            lines.append(f"    reveal_type(value_[{label[1]}])")
            expected.append((f"[{label[1]}]", checker.comparable(t)))
    return text.rstrip("\n") + "\n\n\n" + "\n".join(lines) + "\n", text.rstrip("\n").count("\n") + 4, expected


def unknown_class(message, text):
    """Whether the error is about a class of the user, only mentioned in quotes."""
    m = re.match(r'Name "([^"]+)" is not defined', message)
    if not m or m[1].split(".")[0] in vars(builtins):
        return False
    tree = ast.parse(text)
    quoted = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
    root = m[1].split(".")[0]
    return root not in names and any(re.search(rf"\b{re.escape(root)}\b", q) for q in quoted)


def judge_batch(batch, rep):
    """batch: [((text, name), case)]"""
    ready = []
    for (text, name), case in batch:
        try:
            source, line, expected = questions(text, name)
        except oracle.Bad:
            rep.count("modules that cannot be executed")  # C02 decides which may not
            continue
        ready.append((source, line, expected, text, case))
    if not ready:
        return
    for (source, first, expected, text, case), (errors, revealed) in zip(ready, checker.check_batch([r[0] for r in ready])):
        rep.count("executions")
        for no, message in errors:
            if no >= first and len(revealed) == len(expected):
                rep.violation(case, "static-use", f"{message} at {source.splitlines()[no - 1].strip()}")
            elif no >= first or not unknown_class(message, text):
                lines = source.splitlines()
                rep.violation(case, "static-error", f"line {no}: {message}: {lines[no - 1].strip()}", site=checker.known_site(message, lines, no))
        if len(revealed) != len(expected):
            rep.violation(case, "static-type", f"{len(revealed)} answers for {len(expected)} questions")
            continue
        for (what, ir), (_, answer) in zip(expected, sorted(revealed)):
            try:
                got = checker.parse(answer)
            except (ValueError, SyntaxError) as e:
                rep.violation(case, "static-type", f"{what}: {answer} ({e})")
                continue
            if checker.nameless(got) != ir:
                rep.violation(case, "static-type", f"{what}: executed {checker.show(ir)}, understood {answer}")
            rep.seen("outcomes", checker.show(ir))


def run(tier):
    root = tempfile.mkdtemp(prefix="c21-")
    try:
        rep, texts = generate(tier, root)
    finally:
        shutil.rmtree(root)
    items = sorted(texts.items(), key=lambda kv: (len(kv[0][0]), kv[0]))
    size = min(BATCH, max(1, -(-len(items) // 8)))
    batches = [items[k :: -(-len(items) // size)] for k in range(-(-len(items) // size))]

    def work(bs, i, n, r):
        for b in bs[i::n]:
            judge_batch(b, r)

    rep.merge(runner.parallel(work, batches))
    cov = termcheck.coverage(rep, "every different module generated from the values of each universe x its configurations, and from all listed class names, read by the type checker")
    cov["transitions"] = rep.counts.get("generated", 0)
    cov["modules_checked"] = rep.counts.get("executions", 0)
    for v in rep.violations[:3]:
        rep.sample(v["case"])
    return rep, cov


def replay(case, rep):
    text = gen.text(case["value"], case["config"], case.get("name", "X"))
    judge_batch([((text, case.get("name", "X")), case)], rep)
