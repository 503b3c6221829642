"""C07: a deep snapshot of every value before and after it is processed."""
import collections
import io
import itertools
import operator
import os
import re
import types

from mc import live, plans, runner, termcheck, universes as U, world

LEVEL = "model_checking"
ASSUMPTIONS = ["values are acyclic and reading them (iteration, item access) has no side effects of its own", "the snapshot reaches every part through the standard containers, instance attributes, class and function attributes, array and frame contents"]
MORE = """[io.StringIO('ab\\ncd')];(lambda f: (f.seek(2), f)[1])(io.StringIO('ab\\ncd'));(lambda f: (f.readline(), f)[1])(io.BytesIO(b'ab\\ncd'));(lambda f: (f.readline(), f)[1])(open(world_file));open(world_file, 'rb');{'a': open(world_file), 'b': io.BytesIO(b'x')}
collections.defaultdict(int, {'a': 1});collections.defaultdict(list);collections.ChainMap({'a': 1}, {'b': 's'});collections.Counter('aab');collections.OrderedDict([('b', 1), ('a', 's')]);[collections.defaultdict(dict, {'x': {'a': 1}}), collections.defaultdict(dict, {'y': {'a': 1}})]
Holder();[Holder(), Holder()];{'a': Holder()};Holder;Slots()
pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']}, index=[5, 3]);pd.DataFrame([[1, 's', 2.5]], columns=['a', 'b', 'a']);pd.DataFrame({('a', 'b'): [1], ('a', 'c'): ['s']});pd.DataFrame([[[1], {'a': 1}]], columns=['l', 'd']);pd.DataFrame({'d': pd.to_datetime(['2020-01-01']), 'c': pd.Categorical(['x'])});pd.DataFrame({1: [1], 'a': [None], True: [2]});[pd.DataFrame({'a': [1]}), pd.DataFrame({'a': ['s']})];pd.DataFrame(columns=['a']);pd.DataFrame({('a', 'b', 'c'): [1], ('a', 'd', 'e'): ['s']})
pd.Series([{'a': 1}, {'b': 's'}]);pd.Series([1, 2], index=['x', 'y'], name='n');pd.Series([[1], ['s']], dtype=object);pd.Series(pd.Categorical(['a', 'b']))
np.array([[1, 2], [3, 4]])[::2];np.array([{'a': 1}, [1]], dtype=object);np.ma.array([1, 2], mask=[0, 1]);np.zeros((2, 2), order='F');np.rec.array([(1, 's')])
Counting(1, 's', [1]);[Counting(1), Counting('s')];{'a': Counting(1)};gen(1, 's');map(str, [1, 2]);zip([1], ['s']);enumerate('ab');reversed([1, 2]);{'a': 1}.items();{'a': 1}.keys();{'a': 1}.values()
bytearray(b'abc');memoryview(b'abc');array.array('i', [1, 2]);collections.deque([1, 's'], maxlen=2);types.SimpleNamespace(a=1, b=[2])"""
MORE = [e for line in MORE.splitlines() for e in line.split(";")]
SHARED = ["[x, x]", "(x, x)", "{'a': x, 'b': x}", "{'a': x, 'b': [x]}", "[[x], {'a': x}]", "MappingProxyType({'a': x, 'b': (x,)})", "{1: x, 'a': {'b': x}}", "[{'a': x}, {'a': x}]", "[{'a': x, 'c': 1}, {'b': x, 'c': 1}]", "({'a': x}, {'b': [x]}, x)"]
PARTS = ["[1]", "{'a': 1}", "{'a': 1, 'b': {'c': 's'}}", "{'doc': 'Text', 'a': [1, 's']}", "{1: 's'}", "[{'a': 1}, {'b': 1}]", "[]", "{}", "(1, [2])", "{1, 's'}", "Custom()", "Custom", "fn_plain", "np.array([1])", "pd.Series([1])", "pd.DataFrame({'a': [1]})", "bytearray(b'a')", "MappingProxyType({'a': 1})", "collections.defaultdict(list, {'a': [1]})"]
DOCS = ["{'doc': 'Text', 'a': 1}", "{'a': 1, 'doc': 'Text'}", "{'doc': 'T', 'a': {'doc': 'U', 'b': [1]}}", "[{'doc': 'T', 'a': 1}, {'doc': 'U', 'b': 1}]", "[{'doc': 'T', 'a': 1}, {'a': 1}]", "{'doc': ['x'], 'a': 1}", "{'doc': ''}", "[{'doc': 'T', 'a': 1, 'b': 1}, {'a': 1, 'doc': 'U'}]", "MappingProxyType({'doc': 'T', 'a': {'doc': 'U'}})", "{1: {'doc': 'T'}, 'doc': 'U'}"]


def shared():
    for s in SHARED:
        for p in PARTS:
            yield f"(lambda x: {s})({p})"
    for a, b in itertools.product(SHARED, repeat=2):
        inner = re.sub(r"\bx\b", "y", b)
        yield f"(lambda y: (lambda x: {a})({inner}))({{'a': [1]}})"


class Holder:
    """Lazy attributes that remember being asked for."""

    def __init__(self):
        self.plain = [1]

    @property
    def lazy(self):
        self.asked = True
        return 1

    def __getattr__(self, name):
        if not name.startswith("__"):
            self.__dict__.setdefault("missed", []).append(name)
        raise AttributeError(name)


class Slots:
    __slots__ = ("a", "b")

    def __init__(self):
        self.a = [1]


def build(expr):
    import array

    return eval(expr, {**world.ENV, "world_file": world.__file__, "array": array, "Holder": Holder, "Slots": Slots})


class Snapshot:
    """Everything below a value, by identity; keeps the parts alive."""

    def __init__(self, value):
        self.seen = {}
        self.keep = []
        self.iterators = {}
        self.visit(value)

    def visit(self, v):
        if id(v) in self.seen:
            return
        self.keep.append(v)
        self.seen[id(v)] = None
        self.seen[id(v)] = (type(v).__qualname__, self.state(v))

    def ids(self, vs):
        vs = list(vs)
        for v in vs:
            if not isinstance(v, (int, float, str, bytes, type(None))) or hasattr(v, "__dict__"):
                self.visit(v)
        return tuple(id(v) if not isinstance(v, (int, float, str, bytes, type(None))) else (type(v).__name__, repr(v)) for v in vs)

    def state(self, v):
        import numpy as np
        import pandas as pd

        if isinstance(v, type):
            return tuple(sorted(k for k in vars(v))), self.ids(x for k, x in sorted(vars(v).items()) if isinstance(x, (list, dict, set)))
        if isinstance(v, types.ModuleType):
            return tuple(sorted(vars(v)))
        if isinstance(v, types.FunctionType):
            return repr(v.__code__), repr(v.__defaults__), tuple(vars(v)), repr(v.__annotations__), v.__name__, v.__doc__
        if isinstance(v, pd.DataFrame):
            return tuple(map(repr, v.columns)), type(v.columns).__name__, v.columns.names, tuple(map(repr, v.index)), tuple(map(str, v.dtypes)), v.shape, tuple(self.ids(v.iloc[:, i]) if v.dtypes.iloc[i] == object else tuple(map(repr, v.iloc[:, i])) for i in range(v.shape[1])), repr(v.attrs), repr(v.flags.allows_duplicate_labels)
        if isinstance(v, pd.Series):
            return tuple(map(repr, v.index)), v.name, str(v.dtype), self.ids(v) if v.dtype == object else tuple(map(repr, v)), repr(v.attrs)
        if isinstance(v, np.ndarray):
            return str(v.dtype), v.shape, v.strides, v.flags.writeable, self.ids(v.ravel()) if v.dtype == object else v.tobytes()
        if isinstance(v, io.IOBase):
            return v.closed, None if v.closed else v.tell(), v.getvalue() if isinstance(v, (io.StringIO, io.BytesIO)) else None
        if isinstance(v, world.Counting):
            self.iterators[id(v)] = v.asked
            return self.ids(v.items)
        extra = ()
        if isinstance(getattr(type(v), "__dict__", None), types.MappingProxyType):
            d = object.__getattribute__(v, "__dict__") if "__dict__" in dir(type(v)) and not isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)) and hasattr(v, "__dict__") else None
            extra = (tuple(d), self.ids(d.values())) if isinstance(d, dict) else ()
        if isinstance(v, (dict, types.MappingProxyType)):
            items = list(dict.items(v)) if isinstance(v, dict) else list(v.items())
            return self.ids(k for k, _ in items), self.ids(x for _, x in items), getattr(v, "default_factory", None), extra
        if isinstance(v, (list, tuple, collections.deque)):
            return self.ids(v), getattr(v, "maxlen", None), extra
        if isinstance(v, (set, frozenset)):
            return self.ids(v), extra
        if isinstance(v, (bytearray, memoryview)):
            return bytes(v)
        if hasattr(v, "__next__"):
            left = operator.length_hint(v, -1)
            if isinstance(v, types.GeneratorType):
                left = (v.gi_frame.f_lasti if v.gi_frame else -1, v.gi_running)
            elif left == -1:
                left = repr(v.__reduce__()) if hasattr(v, "__reduce__") else None
            self.iterators[id(v)] = left
            return ()
        if isinstance(v, Slots):
            return self.ids([v.a]), hasattr(v, "b")
        return repr(v)[:80] if not extra else "", extra


def difference(a, b):
    if a.seen.keys() != b.seen.keys():
        return "the objects it consists of"
    for i, s in a.seen.items():
        if s != b.seen[i]:
            return f"a {s[0]}: {s[1]} became {b.seen[i]}"
    return None


def compare(case, rep, before, after, what):
    d = difference(before, after)
    if d:
        rep.violation(case, "altered", f"{what} altered {d}"[:600])
    for i, left in before.iterators.items():
        if after.iterators.get(i) == left:
            continue
        limit = case["config"].get("check_max_n_elements_within_container", 500)
        now = after.iterators.get(i)
        it = next(v for v in before.keep if id(v) == i)
        fair = not isinstance(it, world.Counting) or now <= (limit or 10**9) and now <= len(it.items) + 1
        rep.violation(case, "iterator", f"{what} consumed items of an iterator ({left} before, {now} after)", site="iterator-consumed-by-inspection" if fair else None)


def judge(case, rep):
    from mc import gen

    value = build(case["value"])
    before = Snapshot(value)
    text_tree = gen.LazyTypeHint(gen.strategies(case["config"])).from_data(value, class_name="X")
    compare(case, rep, before, Snapshot(value), "from_data")
    rep.seen("outcomes", text_tree.to_string())
    text_tree.to_string(include_imports=False)
    again = Snapshot(value)
    d = difference(before, again)
    if d:
        rep.violation(case, "altered", f"rendering altered {d}"[:600])


def judge_live(case, rep, sb):
    value = build(case["value"])
    before = Snapshot(value)
    inst = sb.Live(sb.Strategies(**case["config"]), if_type_hint_exists=case["mode"])
    path = os.path.join(sb.root, "doc.yaml")
    result = inst.from_data(value, class_name="X")
    if result is not value:
        rep.violation(case, "returned", "from_data returned another object")
    compare(case, rep, before, Snapshot(value), "live from_data")
    for comments in (None, "side", "above", "below", ["side", "above"]):
        loads = []

        def loader(p):
            loads.append((os.fspath(p), build(case["value"])))
            return loads[-1][1]

        inst2 = sb.Live(sb.Strategies(**case["config"]))
        result = inst2.from_yaml_file(loader, path, class_name="Y", comments_are=comments)
        first = [v for p, v in loads if p == path]
        if not any(result is v for v in first):
            rep.violation(case, "returned", f"from_yaml_file (comments {comments}) did not return what the loader yields for the file")
        rep.seen("outcomes", (repr(comments), len(loads)))


YAMLS = ["a: 1 # One\n", "# One\na:\n  b: 1 # Two\n", "- a: 1 # x\n- b: 2\n", "a: [1, 2] # x\n", "- 1 # x\n", "1\n", "", "# only\n", "a: 1\nb:\n  - c # y\n", "a: &x {b: 1} # anchor\nc: *x\n", "lazy_type_hint: 1 # x\n", "1: 2 # x\n", "~: # x\n  a: 1\n"]


def judge_yaml(case, rep, sb):
    import yaml

    path = os.path.join(sb.root, "real.yaml")
    with open(path, "w") as f:
        f.write(case["yaml"])

    def loader(p):
        with open(p) as f:
            return yaml.safe_load(f)

    want = loader(path)
    result = sb.Live().from_yaml_file(loader, path, class_name="X", comments_are=case["comments"])
    if repr(result) != repr(want):
        rep.violation(case, "returned", f"from_yaml_file returned {result!r}, the loader yields {want!r}")
    if case["yaml"] and "&x" in case["yaml"] and result["a"] is not result["c"]:
        rep.violation(case, "returned", "shared parts of the loaded data were copied")
    rep.seen("outcomes", repr(result))


def plan(tier):
    q = tier == "quick"
    some = [{}, {"dict_strategy": "dict"}, {"merge_different_typed_dicts_if_similarity_above": 1, "key_used_as_doc": "a"}]
    every = some + [{"check_max_n_elements_within_container": 1}, {"dict_strategy": "Mapping", "check_max_n_elements_within_container": 1}, {"tuple_size_strategy": "any size"}, {"pandas_strategies": "Type hint only for autocomplete"}, {"pandas_strategies": "Do not type hint columns"}, {"check_max_n_elements_within_container": None}, {"min_height_to_define_type_alias": 0}, {"key_used_as_doc": "doc", "typed_dict_read_only_values": True}]
    return [
        ("every kind of value", plans.leaves_wrapped if q else U.kinds1, every),
        ("special values", lambda: iter(MORE), every),
        ("special values, wrapped", lambda: (w for e in MORE for w in U.wraps(e, kinds=("list", "tuple", "dict", "mproxy"))), some),
        ("shared parts", shared, every),
        ("documentation", lambda: iter(DOCS), [{**c, "key_used_as_doc": "doc"} for c in every]),
        ("groups of 2 dicts", plans.once(U.dict_groups, 2), some if q else every),
        ("groups of 3 dicts", plans.once(U.dict_groups, 3, values=["1", "[1]"]), some[2:] if q else every[:4]),
        ("nested containers", plans.once(U.structure, 4 if q else 5), every[:4]),
        ("containers of many different children", plans.once(U.wide, 6 if q else 20), every[:1] if q else some),
        ("containers of similar children", plans.once(U.alike, 5 if q else 14), some),
        ("long containers", plans.once(U.many, [33, 101, 257, 1001] if q else None), some[:2]),
        ("chains of many containers", plans.once(U.deep, 6 if q else 12), some[:2]),
        ("pairs of kinds", plans.once(U.kinds2, kinds=("list",) if q else ("list", "dict", "tuple")), every[:1]),
    ]


def live_cases(tier):
    values = U.LEAVES + U.FRAMES + MORE + DOCS + PARTS + [f"(lambda x: {s})({p})" for s in SHARED for p in PARTS[: 4 if tier == "quick" else None]]
    values += list(U.structure(3 if tier == "quick" else 4))
    for e in dict.fromkeys(values):
        yield {"value": e, "config": {}, "mode": "overwrite", "live": True}
        if tier != "quick":
            yield {"value": e, "config": {"dict_strategy": "dict", "key_used_as_doc": "doc"}, "mode": "validate", "live": True}
    for y in YAMLS:
        for c in (None, "side", "above", "below", ["side", "above"]):
            yield {"yaml": y, "comments": c}


def setup():
    sb = live.Sandbox()
    with open(os.path.join(sb.root, "doc.yaml"), "w") as f:
        f.write("a: 1 # One\n# Two\nb: 2\n")
    return sb


def one(case, rep, sb):
    if "yaml" in case:
        judge_yaml(case, rep, sb)
    else:
        judge_live(case, rep, sb)
    sb.clear()


def run(tier):
    rep = termcheck.explore(plan(tier), judge)

    def work(items, i, n, r):
        sb = setup()
        for case in items[i::n]:
            r.count("executions")
            r.count("executions through the live generator")
            r.seen("states", repr(case))
            termcheck.guarded(lambda c, q: one(c, q, sb), case, r)
        sb.close()

    rep.merge(runner.parallel(work, list(live_cases(tier))))
    return rep, termcheck.coverage(rep, "every value of the listed universes under every listed configuration, with a deep identity snapshot before generation, after it and after rendering; the same through the live generator, and YAML reading through it under every comment placement")


def replay(case, rep):
    if "live" in case or "yaml" in case:
        sb = setup()
        termcheck.guarded(lambda c, q: one(c, q, sb), case, rep)
    else:
        termcheck.guarded(judge, case, rep)
