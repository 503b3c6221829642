"""C05: the text under every order, process, history and sharing pattern that
must not matter."""
import ast
import hashlib
import itertools
import json
import os
import subprocess
import sys
import tempfile
import shutil

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env, gen, orders, plans, runner, termcheck, universes as U, world

LEVEL = "model_checking"
ASSUMPTIONS = [
    "sets of the value keep the order they iterate in, and hold at most one element that needs a declaration of its own",
    "orders of up to four items are permuted in every way, longer ones by reversal, rotations and swaps of neighbours",
    "hash seeds other than those listed are represented by the explored orders",
]
DOC = {"key_used_as_doc": "doc"}
SPECIAL = [
    "[{'a': 1, 'doc': 'One.'}, {'a': 2, 'doc': 'Two.'}]", "[{'a': 1, 'doc': 'One.'}, {'a': 2, 'doc': 'Two.'}, {'a': 3, 'b': 's', 'doc': 'Three.'}]", "({'a': 1, 'doc': 'One.'}, {'a': 2, 'doc': 'Two.'}, {'a': 1})",
    "{'x': {'a': 1, 'doc': 'One.'}, 'y': {'a': 1, 'doc': 'Two.'}}", "{1: {'a': 1, 'doc': 'One.'}, 2: {'a': 1, 'doc': 'Two.'}, 's': {'a': 1}}", "MappingProxyType({1: {'a': 1, 'doc': 'One.'}, 2: {'a': 1, 'doc': 'Two.'}})",
    "[{'a': 1, 'b': 1, 'c': 1, 'd': 1, 'e': 1, 'f': 1}, {'g': 1, 'a': 1, 'b': 1, 'c': 1, 'd': 1, 'e': 1}, {'h': 1, 'i': 1}]",
    "{'a': [1], 'b': [2], 'c': ['s'], 'd': ['t'], 'e': [None]}", "[[1], ['s'], [None], [1.5], [b''], [[]], [()]]", "{'a': {'b': {'c': [[1]]}}, 'd': {'b': {'c': [['s']]}}}",
    "[fn_plain, fn_any, fn_args, fn_none, len, print, Custom().meth]", "[int, str, Custom, Child, Color, type(None)]", "[Custom(), Child(), Color.RED, Key(1), Point(1, 2), IntSub(1), StrSub('s')]",
    "pd.DataFrame({'a': [1], 'b': ['x'], 'c': [1.5], 'd': [None]})", "{'x': pd.Series([1, 's', None, 1.5, [1], ['s']], dtype=object)}", "[np.array([1]), np.array([1.5]), np.array(['a']), np.array([True])]",
    "{1, 's', None, 1.5, b'x', 1j, (1,)}", "[frozenset([1, 's']), frozenset(['s', 2]), frozenset([1.5])]", "[(1, 's'), ('s', 1), (2, 't'), (1,), ()]", "{('a', 1): [1], ('b', 's'): [2], None: ['s'], 1: {'x': 1}}",
    "[{'a b': 1, 'c': [1]}, {'class': [1]}, {'ab': {'a b': ['s']}}]", "[range(3), slice(1), Ellipsis, math, io.StringIO(''), bytearray(b''), datetime.date(2020, 1, 1), decimal.Decimal(1), fractions.Fraction(1, 2), pathlib.PurePosixPath('a')]",
]


def wide():
    """Many different kinds next to each other."""
    leaves = [e for e in U.LEAVES if "gen(" not in e]
    for n in (3, 7, 20, 60):
        for i in range(0, len(leaves) - n + 1, max(1, n // 2)):
            part = leaves[i : i + n]
            for p in (part, part[::-1]):
                yield "[" + ", ".join(p) + "]"
                yield "(" + ", ".join(f"[{e}]" for e in p) + ")"
                yield "{" + ", ".join(f"'k{j}': {e}" for j, e in enumerate(p)) + "}"
                yield "{" + ", ".join(f"{j}: {e}" for j, e in enumerate(p)) + "}"


def declared_in_sets(v, depth=0):
    """Whether some set holds several elements that need their own declaration."""
    if depth > 8 or isinstance(v, (str, bytes)):
        return False
    if isinstance(v, (set, frozenset)):
        if sum(isinstance(e, (tuple, frozenset)) or callable(e) for e in v) > 1:
            return True
        return any(declared_in_sets(e, depth + 1) for e in v)
    if isinstance(v, dict) or type(v).__name__ == "mappingproxy":
        return any(declared_in_sets(e, depth + 1) for kv in v.items() for e in kv)
    if isinstance(v, (list, tuple)):
        return any(declared_in_sets(e, depth + 1) for e in v)
    return False


def special():
    yield from SPECIAL
    yield from wide()


def plan(tier, layer):
    O = plans.once
    out = [
        ("special values", special, [{}, DOC, {**DOC, "merge_different_typed_dicts_if_similarity_above": 1}, {"dict_strategy": "dict", "tuple_size_strategy": "any size"}, {"min_height_to_define_type_alias": 0, "pandas_strategies": "Type hint only for autocomplete"}]),
        ("every kind of value, wrapped once", plans.leaves_wrapped, [{}, {"dict_strategy": "dict", "tuple_size_strategy": "any size"}]),
        ("nested containers to 4 nodes", O(U.structure, 4 if layer == "process" else 3), [{}]),
        ("groups of dicts", O(U.dict_groups, 2, values=["1", "1.5", "[1]"]), [{}, {"merge_different_typed_dicts_if_similarity_above": 1}]),
        ("nested keys", O(U.nested_names, 3), [{}]),
        ("chains", O(U.chains, 3 if layer == "process" else 2), [{}, {"min_height_to_define_type_alias": 0}]),
        ("every key", U.keys1, [{}, {"dict_strategy": "dict"}]),
        ("containers of many different children", O(U.wide, 20 if layer == "process" else 6), [{}]),
        ("containers of similar children", O(U.alike, 8 if layer == "process" else 4), [{}]),
        ("chains of up to 8 containers", O(U.deep, 8), [{}]),
    ]
    if tier == "thorough":
        out += [
            ("nested containers to 5 nodes", O(U.structure, 5 if layer == "process" else 4), [{}]),
            ("all containers to 4 nodes", O(U.structure_all, 4), [{}]),
            ("groups of 3 dicts", O(U.dict_groups, 3, values=["1", "[1]"], kinds=("list",)), [{"merge_different_typed_dicts_if_similarity_above": 1}]),
        ]
        if layer == "process":
            out.append(("pairs of kinds", O(U.kinds2, kinds=("list",)), [{}]))
    return out


def cases_of(tier, layer):
    for label, exprs, configs in plan(tier, layer):
        for e in exprs():
            for c in configs:
                yield e, c


# ---------------------------------------------------------------- processes
def child(tier, backwards, only, out):
    """All texts of the universe in this process, in one order or the other."""
    env.load()
    # another memory layout
    junk = [type(f"Junk{i}", (), {}) for i in range(173)] if backwards else None
    cases = list(cases_of(tier, "process")) if only is None else [tuple(only)]
    texts = {}
    for k in range(len(cases) - 1, -1, -1) if backwards else range(len(cases)):
        e, c = cases[k]
        v = world.build(e)
        if "set" in e or "{" in e:
            if declared_in_sets(v):
                continue
            v = world.build(e)
        try:
            t = gen.text_of(v, c)
        except Exception as x:  # noqa: BLE001  (C01 decides what may fail)
            t = f"{type(x).__name__}"
        texts[k] = hashlib.sha256(t.encode("utf-8", "surrogatepass")).hexdigest()[:16] if only is None else t
    del junk
    with open(out, "w") as f:
        json.dump(texts, f)


def start_child(tier, seed, backwards, only, out):
    e = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"}
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), tier, str(int(backwards)), json.dumps(only), out], env=e)


def run_children(tier, runs, only=None):
    root = tempfile.mkdtemp(prefix="c05-")
    try:
        results = []
        for block in range(0, len(runs), 8):
            ps = [(start_child(tier, s, b, only, os.path.join(root, f"{block}-{i}")), os.path.join(root, f"{block}-{i}")) for i, (s, b) in enumerate(runs[block : block + 8])]
            for p, out in ps:
                if p.wait(800):
                    raise RuntimeError(f"a child ended with {p.returncode}")
                with open(out) as f:
                    results.append(json.load(f))
        return results
    finally:
        shutil.rmtree(root)


def processes(tier, rep):
    n = 8 if tier == "quick" else 24
    runs = [(s, s % 2 == 1) for s in range(n)]
    results = run_children(tier, runs)
    cases = list(cases_of(tier, "process"))
    for k, h in results[0].items():
        e, c = cases[int(k)]
        rep.seen("states", e)
        rep.count("executions", len(runs))
        rep.count("executions processes", len(runs))
        rep.seen("outcomes", h)
        for run, r in zip(runs, results):
            if r[k] != h:
                rep.violation({"value": e, "config": c, "runs": [runs[0], run], "tier": tier}, "process", f"hash seed {run[0]}{', cases in reverse order' if run[1] else ''}: another text than with hash seed 0")
                break
    return results[0]


def judge_processes(case, rep):
    for only in ((case["value"], case["config"]), None):
        a, b = run_children(case["tier"], case["runs"], only)
        wrong = [k for k in a if a[k] != b[k]]
        if wrong:
            rep.violation(case, "process", f"{len(wrong)} texts differ between the processes: {str(a[wrong[0]])[:300]} / {str(b[wrong[0]])[:300]}")
            return


# ------------------------------------------------------------------- orders
def ordered_text(pkg, case, **how):
    orders.control.reset(**how)
    v = world.build(case["value"])
    return pkg.LazyTypeHint(pkg.ParsingStrategies(**case["config"])).from_data(v, class_name="X").to_string()


def judge_orders(case, rep, pkg, few):
    if ("set" in case["value"] or "{" in case["value"]) and declared_in_sets(world.build(case["value"])):
        return
    base = ordered_text(pkg, case)
    log = list(orders.control.log)
    rep.count("choice points", len(log))
    rep.seen("outcomes", base)
    if "how" in case:
        todo = [case["how"]]
    else:
        todo = [{"everywhere": h} for h in (["reverse", 0], ["rotate", 1], ["swap", 0])] + [{"ids": True}, {"hashes": True}, {"everywhere": ["reverse", 0], "ids": True, "hashes": True}]
        todo += [{"plan": {str(i): h}} for i, n in enumerate(log) for h in orders.permutations(n, few)]
    for how in todo:
        rep.count("executions")
        rep.count("executions orders")
        rep.seen("transitions", (case["value"], str(case["config"]), str(how)))
        real = {**how, "plan": {int(k): v for k, v in how.get("plan", {}).items()}}
        if "plan" not in how:
            del real["plan"]
        got = ordered_text(pkg, case, **real)
        if got != base:
            rep.violation({**case, "how": how}, "order", f"under {how}: {first_difference(base, got)}")
            return


def first_difference(a, b):
    for x, y in itertools.zip_longest(a.split("\n"), b.split("\n")):
        if x != y:
            return f"{x!r} became {y!r}"
    return ""


# ---------------------------------------------------------------- histories
POOL = SPECIAL + [
    "1", "None", "[1]", "['s']", "[[1]]", "(1, 's')", "{1, 's'}", "{'a': 1}", "{'a': 's'}", "{'a': [1]}", "{'A': [1]}", "{'a b': 1}", "{1: 's'}", "[]", "()", "{}", "Custom()", "Custom", "fn_plain", "lambda a: a",
    "math", "np.array([1])", "np.array([1.5])", "pd.DataFrame({'a': [1]})", "pd.DataFrame({'a': ['s']})", "pd.Series([1])", "iter([1])", "MappingProxyType({'a': 1})", "open('/dev/null')", "[{'a': 1}, {'a': 's'}]",
    "[{'a': 1}, {'a': 1, 'b': 1}]", "{'a': {'b': {'c': 1}}}", "{'a': {'b': {'c': 's'}}}", "[None, 1, 's']", "([1], [1], ['s'])", "{'doc': 'Words.', 'a': 1}", "{'doc': 'Other.', 'a': 1}", "type", "[1.5]", "[True]",
]
HISTORY_CONFIGS = [{}, DOC, {"dict_strategy": "dict", "list_strategy": "Sequence", "tuple_size_strategy": "any size"}, {"min_height_to_define_type_alias": 0, **DOC}]


def in_fork(f):
    """f() in a process that has generated nothing before."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w", errors="surrogatepass") as out:
                json.dump(f(), out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as inp:
        text = inp.read()
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError("a fork failed")
    return json.loads(text)


def history(steps, style):
    """The texts of a sequence of (value, configuration)."""
    L = gen.LazyTypeHint
    made, texts = [], []
    shared = None
    for e, c in steps:
        if style == "same instance":
            shared = shared or L(gen.strategies(c))
            r = shared.from_data(world.build(e), class_name="X")
        else:
            r = L(gen.strategies(c)).from_data(world.build(e), class_name="X")
        if style == "rendered last":
            made.append(r)
        else:
            texts.append(r.to_string())
            made.append(r)
    if style == "rendered last":
        texts = [r.to_string() for r in made]
    elif style == "rendered again":
        texts = [r.to_string() for r in made]
    return texts


STYLES = ["anew", "same instance", "rendered last", "rendered again"]
_alone = {}


def alone(e, c):
    key = e, str(c)
    if key not in _alone:
        _alone[key] = in_fork(lambda: history([(e, c)], "anew"))[0]
    return _alone[key]


def judge_history(case, rep):
    steps = [tuple(s) for s in case["steps"]]
    want = [alone(e, c) for e, c in steps]
    got = in_fork(lambda: history(steps, case["style"]))
    rep.seen("outcomes", str(want))
    for n, (a, b) in enumerate(zip(want, got)):
        if a != b:
            rep.violation(case, "history", f"step {n} ({case['style']}): {first_difference(a, b)}")
            return


def histories(tier):
    pairs = itertools.product(POOL, repeat=2)
    for k, (u, v) in enumerate(pairs):
        if tier == "thorough":
            for style in STYLES:
                for c in HISTORY_CONFIGS:
                    yield {"steps": [[u, c], [v, c]], "style": style}
            for c, d in itertools.permutations(HISTORY_CONFIGS, 2):
                yield {"steps": [[u, c], [v, d]], "style": "anew"}
        else:
            yield {"steps": [[u, DOC], [v, DOC], [u, DOC]], "style": "same instance"}
            yield {"steps": [[u, DOC], [v, {}]], "style": "rendered last"}
    # everything after everything else
    for style in STYLES:
        for c in HISTORY_CONFIGS:
            yield {"steps": [[u, c] for u in POOL], "style": style}
            yield {"steps": [[u, c] for u in reversed(POOL)], "style": style}
    for c, d in itertools.product(HISTORY_CONFIGS, repeat=2):
        for style in STYLES[0::2]:
            yield {"steps": [[u, x] for u in POOL for x in (c, d)], "style": style}


# ------------------------------------------------------------------ sharing
CONSUMED = ("iter(", "gen(", "map(", "zip(", "reversed(", "enumerate(", "open(", "io.")


class Sharing:
    """Evaluates an expression with equal parts shared as told."""

    def __init__(self, expr):
        self.tree = ast.parse(expr, mode="eval").body
        self.groups = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.Call)) and (not isinstance(n, ast.Tuple) or n.elts):
                self.groups.setdefault(ast.dump(n), []).append(id(n))
        self.groups = {d: ids for d, ids in self.groups.items() if len(ids) > 1}

    def build(self, classes):
        """classes: for each group, the class each occurrence belongs to."""
        part = {i: (d, c) for d, ids in self.groups.items() for i, c in zip(ids, classes[d])}
        memo = {}

        def go(n):
            key = part.get(id(n))
            if key is not None and key in memo:
                return memo[key]
            if isinstance(n, ast.List):
                v = [go(e) for e in n.elts]
            elif isinstance(n, ast.Tuple):
                v = tuple([go(e) for e in n.elts])
            elif isinstance(n, ast.Set):
                v = {go(e) for e in n.elts}
            elif isinstance(n, ast.Dict):
                v = {go(k): go(e) for k, e in zip(n.keys, n.values)}
            elif isinstance(n, ast.Call) and not n.keywords:
                v = go(n.func)(*[go(a) for a in n.args])
            else:
                v = eval(compile(ast.Expression(n), "<value>", "eval"), dict(vars(world)))  # noqa: S307
            if key is not None:
                memo[key] = v
            return v

        return go(self.tree)

    def patterns(self):
        options = []
        for d, ids in self.groups.items():
            n = len(ids)
            options.append([(d, p) for p in (partitions(n) if n <= 4 else [tuple([0] * n), tuple(range(n)), tuple(i % 2 for i in range(n)), tuple(i // 2 for i in range(n))])])
        for choice in itertools.islice(itertools.product(*options), 256):
            yield dict(choice)


def partitions(n):
    """Every way to split n occurrences into classes."""
    def grow(prefix):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for c in range(max(prefix, default=-1) + 2):
            yield from grow([*prefix, c])

    return list(grow([]))


def judge_sharing(case, rep):
    s = Sharing(case["value"])
    config = case["config"]
    base = gen.text_of(s.build({d: tuple(range(len(i))) for d, i in s.groups.items()}), config)
    rep.seen("outcomes", base)
    todo = [dict(zip(s.groups, case["pattern"]))] if "pattern" in case else s.patterns()
    for p in todo:
        rep.count("executions")
        rep.count("executions sharing")
        rep.seen("transitions", (case["value"], str(list(p.values()))))
        got = gen.text_of(s.build(p), config)
        if got != base:
            rep.violation({**case, "pattern": list(p.values())}, "sharing", f"occurrences shared as {list(p.values())}: {first_difference(base, got)}")
            return


def shared_values(tier):
    q = tier == "quick"
    for e in SPECIAL:
        yield e
    doc = "{'a': 1, 'doc': 'One.'}"
    parts = ["[1]", "[[1], 's']", "{'a': 1}", "{'a': [1]}", doc, "{1: 's'}", "(1, [1])", "Custom()", "set([1])", "MappingProxyType({'a': [1]})", "np.array([1])", "pd.Series([1])", "[]", "{}", "{'a b': [1]}", "{'a': {'a': 1}}", "pd.DataFrame({'a': [1]})"]
    shapes = [
        "[{0}, {0}]", "({0}, {0})", "{{'x': {0}, 'y': {0}}}", "{{1: {0}, 2: {0}}}", "[{0}, [{0}]]", "{{'x': {0}, 'y': [{0}]}}", "[{0}, {1}, {0}]", "({0}, {1}, {0}, {1})", "[[{0}], [{0}, {1}]]", "{{'x': {{'p': {0}}}, 'y': {{'p': {0}}}}}",
        "[{{'k': {0}}}, {{'k': {0}, 'l': {1}}}]", "{{'x': {0}, 'y': {1}, 'z': {0}}}", "[[{0}, {0}], {0}]", "{{'x': [{0}], 'x2': [{0}], 'o': {{'x': [{0}]}}}}", "[{{'k': {0}}}, {{'k': {1}}}, {{'k': {0}}}]", "MappingProxyType({{'x': {0}, 'y': {0}}})",
    ]
    for s in shapes:
        for a, b in itertools.product(parts, repeat=2):
            if "{1}" in s or a == b:
                yield s.format(a, b)
    from mc.terms import Space

    yield from Space(["1", "'s'"], ["list", "dict"]).upto(6 if q else 7)


def sharing_cases(tier):
    for e in dict.fromkeys(shared_values(tier)):
        if not any(c in e for c in CONSUMED):
            for c in ({**DOC}, {"dict_strategy": "dict", "min_height_to_define_type_alias": 0}) if "{" in e else ({"min_height_to_define_type_alias": 0},):
                yield {"value": e, "config": c, "sharing": True}


# ------------------------------------------------- items that do not outlive
def judge_fresh(case, rep):
    """Items that are dropped as soon as they were seen (and whose addresses
    are used again) against items that stay."""
    items = case["items"]
    makers = [eval(f"lambda: {e}", dict(vars(world))) for e in items]  # noqa: S307

    def dropped():
        for m in makers:
            yield m()

    def kept():
        yield from held

    held = [m() for m in makers]
    wrapper = eval(f"lambda V: {case['in']}", dict(vars(world)))  # noqa: S307
    a = gen.text_of(wrapper(kept()), case["config"])
    b = gen.text_of(wrapper(dropped()), case["config"])
    rep.seen("outcomes", a)
    if a != b:
        rep.violation(case, "addresses", f"with items that are dropped at once: {first_difference(a, b)}")


def fresh_cases(tier):
    parts = ["[1]", "['s']", "[[1]]", "{'a': 1}", "{'a': 's'}", "{'a': 1, 'b': [1]}", "{1: 's'}", "(1, [1])", "(['s'],)", "Custom()", "Key(1)", "set([1])", "set(['s'])", "lambda a: a", "lambda b, c: a", "type('T', (), {})", "type('V', (), {})", "type('T', (), {})()"]
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for items in itertools.product(parts if n < 4 else parts[:10], repeat=n):
            for where in ("V", "{'x': V}", "[V, V]") if n == 2 else ("V",):
                yield {"items": list(items), "in": where, "config": {"min_height_to_define_type_alias": 0} if n == 2 else {}}


def run(tier):
    rep = runner.Report()
    plain = processes(tier, rep)
    few = 6 if tier == "quick" else 40
    jobs = list(histories(tier)) + list(sharing_cases(tier)) + list(fresh_cases(tier))

    def work(_, i, n, r):
        for case in jobs[i::n]:  # before anything is generated in this process
            if "steps" in case:
                r.count("executions")
                r.count("executions histories")
                r.seen("states", str(case["steps"][:-1]))
                r.seen("transitions", str((case["steps"], case["style"])))
                termcheck.guarded(judge_history, case, r)
        for case in jobs[i::n]:
            if "sharing" in case:
                r.seen("states", case["value"])
                termcheck.guarded(judge_sharing, case, r)
            elif "items" in case:
                r.count("executions")
                r.count("executions dropped items")
                r.seen("states", str(case["items"]))
                r.seen("transitions", str((case["items"], case["in"])))
                termcheck.guarded(judge_fresh, case, r)
        pkg = orders.load()
        for k, (e, c) in enumerate(cases_of(tier, "orders")):
            if k % n == i:
                if k % 997 == 0:
                    r.sample({"value": e, "configuration": c})
                r.seen("states", e)
                termcheck.guarded(lambda case, x: judge_orders(case, x, pkg, few), {"value": e, "config": c}, r)
        # the rewritten package is the real one: same texts
        r.count("choice points", 0)
        for k, (e, c) in enumerate(cases_of(tier, "process")):
            if k % n == i and str(k) in plain:
                orders.control.reset()
                try:
                    t = ordered_text(pkg, {"value": e, "config": c})
                except Exception as x:  # noqa: BLE001
                    t = f"{type(x).__name__}"
                r.count("conformance")
                if hashlib.sha256(t.encode("utf-8", "surrogatepass")).hexdigest()[:16] != plain[str(k)]:
                    r.violation({"value": e, "config": c, "how": {}, "plain": True}, "order", "the order in which the package's own sets iterate decides the text")

    rep.merge(runner.parallel(work, None))
    cov = termcheck.coverage(rep, "every listed value in processes with different hash seeds, memory layouts and order of work; every single deviation of the order in which a set made by the package iterates, and everywhere-reversed, rotated and swapped orders, ids and hashes, on the package with rewritten set operations; every pair of pool values as history; every way to share the equal parts of a value; items dropped while they are looked at")
    cov["order_choice_points"] = rep.counts.get("choice points", 0)
    cov["rewritten_package_conformance"] = rep.counts.get("conformance", 0)
    return rep, cov


def replay(case, rep):
    if "runs" in case:
        judge_processes(case, rep)
    elif "steps" in case:
        termcheck.guarded(judge_history, case, rep)
    elif "items" in case:
        termcheck.guarded(judge_fresh, case, rep)
    elif "sharing" in case:
        termcheck.guarded(judge_sharing, case, rep)
    elif "plain" in case:
        want = alone(case["value"], case["config"])
        pkg = orders.load()
        if ordered_text(pkg, case) != want:
            rep.violation(case, "order", "the order in which the package's own sets iterate decides the text")
    else:
        pkg = orders.load()
        termcheck.guarded(lambda c, r: judge_orders(c, r, pkg, 40), case, rep)


if __name__ == "__main__":
    child(sys.argv[1], sys.argv[2] == "1", json.loads(sys.argv[3]), sys.argv[4])
