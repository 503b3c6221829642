"""C15: every small data frame, alone and next to others, under every strategy."""
import itertools

from mc import frames, generic, oracle, plans, runner, termcheck, universes as U, world

oracle.install_series_shim()
LEVEL = "model_checking"
ASSUMPTIONS = [
    "pd.Series[T] is evaluated through a stand-in, as pandas cannot evaluate it at run time",
    "frames do not mix multi-level and simple labels, nor equal labels of different types (1 and True), and multi-level columns have at least two levels",
    "what a typed access returns is taken from the pandas installed here",
]
P = "pandas_strategies"
FULL, AUTO, NONE = "Full type hint", "Type hint only for autocomplete", "Do not type hint columns"


def find(v, out):
    import pandas as pd

    if isinstance(v, pd.DataFrame):
        out.append(v)
    elif isinstance(v, dict):
        for x in v.values():
            find(x, out)
    elif isinstance(v, (list, tuple)) or isinstance(v, pd.Series) and v.dtype == object:
        for x in v:
            find(x, out)
    elif type(v).__name__ == "mappingproxy":
        for x in v.values():
            find(x, out)
    return out


def tops(ir):
    """Outermost data frame types of an IR."""
    if ir[0] == "df" or ir == frames.PLAIN:
        yield ir
        return
    if ir[0] == "union":
        subs = ir[1]
    elif ir[0] == "tuple":
        subs = ir[1]
    elif ir[0] == "td":
        subs = [t for _, t, _, _ in ir[1]]
    else:
        subs = [t for t in ir[1:] if isinstance(t, tuple) and t and isinstance(t[0], str)]
    for t in subs:
        yield from tops(t)


def judge(case, rep):
    _, _, ir, v, ctx = generic.executed(case, rep)
    r = oracle.why_not(v, ir, ctx)
    if r:
        rep.violation(case, "unsound", r)
        return
    strategy = case["config"].get(P, FULL)
    if ctx.limit == 1:
        found = find(v, [])[:1] if isinstance(v, (list, tuple)) else find(v, [])
    else:
        found = find(v, [])
    types = list(tops(ir))
    if not types and found:
        rep.violation(case, "untyped", f"no data frame type in {oracle.canon(ir)}")
        return
    fits = [[frames.exact(f, t, ctx, strategy) for t in types] for f in found]
    for f, row in zip(found, fits):
        if all(row):
            rep.violation(case, "inexact", row[0])
            return
    for k, t in enumerate(types):
        if all(row[k] for row in fits):
            rep.violation(case, "unneeded", f"no frame is exactly a {oracle.canon(t)}")
            return


LABELS = ["'a'", "'b'", "''", "'a b'", "'class'", "\"it's\"", "'a\\nb'", "'\\\\'", "'é'", "1", "'1'", "'True'", "'A'", "'a '", "'-2'", "-2", "True", "False", "0", "10**20", "Fruit.APPLE", "Fruit.PLUM", "Named('b')", "Level.LOW", "np.str_('q')"]
OTHER = ["1.5", "None", "b'x'", "float('inf')", "pd.Timestamp(0)", "datetime.date(2020, 1, 1)", "Color.RED", "frozenset()"]
COLUMNS = ["[1]", "['s']", "[1.5]", "[True]", "[None]", "[[1]]", "[{'x': 1}]", "(1, 's')", "[]", "pd.Categorical(['u'])", "pd.to_datetime(['2020-01-01'])", "([1], ['s'])", "({'x': 1}, {'y': 's'})", "[(1, 's')]", "[Custom()]", "[Custom]", "[1, None]", "pd.array([1], dtype='Int64')", "[pd.NaT]"]


def clash(ls):
    vs = [world.build(x) for x in ls]
    return any(a == b and type(a) is not type(b) for a, b in itertools.combinations(vs, 2))


def frame(ls, cs):
    return f"frame([{', '.join(ls)}], {', '.join(cs)})"


def one_column():
    for label in LABELS + OTHER + ["('a', 'b')", "('a', 1)", "(1, 'a')", "(1.5, 'a')", "('a', 1.5)", "('a', '')", "('', '')", "('a', 'b', 'c')", "(True, 'a')", "('a', 'a')", "('a', 'a', 'a')", "('a', None)"]:
        for c in COLUMNS:
            yield frame([label], [c])
    yield "frame([])"
    yield "pd.DataFrame(index=[1, 2])"
    yield "pd.DataFrame(columns=['a', 'b'])"
    yield "pd.DataFrame(columns=pd.MultiIndex.from_tuples([('a', 'b'), ('a', 'c')]))"
    yield "pd.DataFrame([[1, 2]])"
    yield "pd.DataFrame({'a': [1, 2, 3]}, index=['x', 'y', 'z'])"
    yield "pd.DataFrame({'a': [1]}, index=pd.MultiIndex.from_tuples([('x', 'y')]))"


def indexes():
    """Every kind of index as columns: tuples that are labels instead of
    levels, categories, ranges, dates, names, levels left unused."""
    kinds = [
        *(f"pd.Index({x}, tupleize_cols=False)" for x in ("[('a', 'b'), ('c', 'd')]", "[('a', 'b'), ('a', 'c')]", "[('a',), ('b', 'c')]", "[('a',), ('b',)]", "[(1, 'a'), (2, 'b')]", "[(1.5, 'a'), ('a', 'b')]", "[(True, 1), (False, 1)]", "[('a', 'b', 'c'), ('a', 'b')]")),
        "pd.MultiIndex.from_tuples([('a', 'b'), ('a', 'c')]).to_flat_index()",
        "pd.CategoricalIndex(['a', 'b'])", "pd.CategoricalIndex([1, 2])", "pd.CategoricalIndex(['b', 'a'], categories=['a', 'b', 'c'], ordered=True)",
        "pd.RangeIndex(2)", "pd.RangeIndex(5, 9, 2)", "pd.to_datetime(['2020', '2021'])", "pd.to_timedelta([1, 2])", "pd.interval_range(0, 2)", "pd.period_range('2020', periods=2, freq='D')",
        "pd.Index(['a', 'b'], name='n')", "pd.Index(['a', 'b'], dtype='string')", "pd.Index([1, 2], dtype='int8')", "pd.Index([1.0, 2.0])", "pd.Index([True, False])", "pd.Index([None, 'a'])",
        "pd.MultiIndex.from_tuples([('a', 'b'), ('c', 'd')], names=['x', 'y'])",
        "pd.MultiIndex.from_product([pd.CategoricalIndex(['a']), pd.CategoricalIndex(['b', 'c'])])",
        "pd.MultiIndex.from_product([['a', 'b'], [1, 2]])[[0, 1]]", "pd.MultiIndex.from_product([['a', 'b'], [1, 2]])[[0, 3]]",
    ]
    for k in kinds:
        yield f"pd.DataFrame([[1, 2.0]], columns={k})"
        yield f"pd.DataFrame([['x', [1]]], columns={k})"
        yield f"pd.DataFrame([], columns={k})"
        yield f"pd.DataFrame([[1, 2]], columns={k}).iloc[:, :1]"


def simple(n, labels, columns):
    for ls in itertools.product(labels, repeat=n):
        if clash(ls):
            continue
        for cs in itertools.product(columns, repeat=n):
            yield frame(ls, cs)


def levels(n, tops_, subs, columns):
    tuples = [f"({', '.join(t)})" for t in itertools.product(tops_, *subs)]
    for ls in itertools.product(tuples, repeat=n):
        if clash([x[1:].split(",")[0] for x in ls]):
            continue
        for cs in itertools.product(columns, repeat=n):
            yield frame(ls, cs)


def many():
    """More columns than any repr shows, differing in one of them."""
    for n in (30, 101):
        base = [f"'c{i}'" for i in range(n)]
        for i in (0, n // 2, n - 1):
            a, b = ["[1]"] * n, ["[1]"] * n
            b[i] = "['s']"
            yield f"[{frame(base, a)}, {frame(base, b)}]"
            other = base[:i] + ["'z'"] + base[i + 1 :]
            yield f"[{frame(base, a)}, {frame(other, a)}]"
            yield frame(base[:i] + ["1.5"] + base[i + 1 :], a)
            yield frame([f"('t', {x})" for x in base], b)


def large():
    """Many rows, columns and levels, long labels."""
    for n in U.LENGTHS:
        for odd in ("'s'", "[1]", "None", "{'a': 1}"):
            yield f"frame(['a'], [1] * {n} + [{odd}])"
            yield f"frame(['a', 'b'], [{odd}] + [1] * {n}, [1] * {n} + [{odd}])"
            yield f"frame([('a', 'c'), ('b', 'c')], [1] * {n // 2} + [{odd}] + [1] * {n - n // 2}, [1] * {n + 1})"
    for n in [*range(4, 42), 64, 65, 128, 129, 257]:
        yield frame([f"'c{i}'" for i in range(n)], ["[1]", "['s']"] * (n // 2) + ["[1]"] * (n % 2))
        yield frame([str(i) for i in range(n)], ["[1]"] * (n - 1) + ["[[1]]"])
        yield frame([f"('t{i // 3}', 'c{i}')" for i in range(n)], ["[1]"] * (n - 1) + ["['s']"])
        yield frame([f"('t{i % 3}', {i})" for i in range(n)], ["[1]"] * (n - 1) + ["['s']"])
        yield frame(["'a'"] * n, ["[1]"] * (n - 1) + ["['s']"])
        yield frame([f"'{'x' * n}'", "'b'"], ["[1]", "['s']"])
        yield frame([f"('{'x y' * n}', '{'z' * n}')", "('b', 'c')"], ["[1]", "['s']"])
    for depth in range(4, 10):
        for mask in itertools.product("ab", repeat=3):
            labels = [repr(tuple("a" if i else "bc"[k] for i in range(depth))) for k in range(2)] + [repr((*mask, *("d",) * (depth - 3)))]
            yield frame(labels, ["[1]", "['s']", "[[1]]"])
            yield frame(["(" + ", ".join(["'a'"] * (depth - 1) + [f"'{m}{i}'"]) + ")" for i, m in enumerate(mask)], ["[1]", "['s']", "[[1]]"])


POOL = ["frame(['a'], [1])", "frame(['a'], ['s'])", "frame(['b'], [1])", "frame(['a', 'b'], [1], ['s'])", "frame(['b', 'a'], [1], ['s'])", "frame(['b', 'a'], ['s'], [1])", "frame(['a', 'a'], [1], ['s'])", "frame(['a', 'a'], [1], [1])", "frame([1], [1])", "frame(['1'], [1])", "frame([True], [1])", "frame([('a', 'b')], [1])", "frame([('a', 'b')], ['s'])", "frame([('a', 'b'), ('a', 'c')], [1], ['s'])", "frame([('a', 'b'), ('c', 'b')], [1], ['s'])", "frame([('a', '')], [1])", "frame([1.5], [1])", "frame([])", "frame(['a'], [[1]])", "frame(['a'], [{'x': 1}])", "frame(['a'], [])"]


def pairs(pool=POOL):
    for a, b in itertools.product(pool, repeat=2):
        yield f"[{a}, {b}]"
        yield f"({a}, {b})"
        yield f"{{'a': {a}, 'b': {b}}}"
        yield f"{{1: {a}, 2: {b}}}"
        yield f"[{{'x': {a}}}, {{'x': {b}}}]"
        yield f"MappingProxyType({{'x': [{a}], 'y': {b}}})"


def triples():
    for ds in itertools.product(POOL[:14], repeat=3):
        yield "[" + ", ".join(ds) + "]"


def nested():
    """Frames and series of containers inside frames, frames deep in values."""
    for e in POOL:
        yield f"[[{e}]]"
        yield f"{{'a': {{'b': {e}}}}}"
        yield f"({e}, 1, 's')"
        yield f"pd.Series([{e}], dtype=object)"
        yield f"[{e}, pd.Series([1]), 1]"
        yield f"{{'a': {e}, 'ab': 1, 'aB': [1]}}"


def plan(tier):
    q = tier == "quick"
    three = [{P: FULL}, {P: AUTO}, {P: NONE}]
    some = [{"list_strategy": "Sequence"}, {"check_max_n_elements_within_container": 1}, {"min_height_to_define_type_alias": 0}, {"min_height_to_define_type_alias": 3}, {"dict_strategy": "dict"}]
    return [
        ("one column", one_column, three + some),
        ("kinds of indexes", indexes, three + some),
        ("two columns", plans.once(simple, 2, LABELS[:4] + LABELS[9:12] + ["-2", "True"] + OTHER[:2], ["[1]", "['s']", "[[1]]"]), three if q else three + some),
        ("three columns", plans.once(simple, 3, ["'a'", "'b'", "'a b'", "1"], ["[1]", "['s']"]), three[:2] if q else three + some),
        ("two levels", plans.once(levels, 2, ["'a'", "'A'", "1", "'1'", "True", "'True'"], [["'c'", "''", "1"]], ["[1]", "['s']"]), three),
        ("two levels, three columns", plans.once(levels, 3, ["'a'", "'b'"], [["'a'", "'c'"]], ["[1]", "['s']"]), three[:1] if q else three + some),
        ("three levels", plans.once(levels, 2 if q else 3, ["'a'", "'b'"], [["'c'", "''"], ["'d'", "''"]], ["[1]", "['s']"]), three[:1] if q else three),
        ("many columns", many, three),
        ("large frames", large, three),
        ("pairs of frames", pairs, three if q else three + some),
        ("nested frames", nested, three + some),
        ("three frames", triples, three[:1] if q else three),
    ] + ([] if q else [
        ("two columns, every label", plans.once(simple, 2, LABELS + OTHER, ["[1]", "['s']"]), three),
        ("two columns, every content", plans.once(simple, 2, ["'a'", "'b'"], COLUMNS), three + some),
        ("four columns", plans.once(simple, 4, ["'a'", "'b'", "1"], ["[1]", "['s']"]), three[:1]),
        ("two levels, four columns", plans.once(levels, 4, ["'a'", "'b'"], [["'c'", "'d'"]], ["[1]", "['s']"]), three[:1]),
    ])


def run(tier):
    rep = termcheck.explore(plan(tier), judge)
    return rep, termcheck.coverage(rep, "every frame of the listed label and content alphabets, alone and next to others inside containers, under every pandas strategy; typed accesses compared with the labels and with what the frame returns")


def replay(case, rep):
    termcheck.guarded(judge, case, rep)
