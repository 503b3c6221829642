"""C20: the types generated with a limit against those of the truncated value
generated without one."""
import collections
import itertools
import types

from mc import gen, oracle, plans, runner, termcheck, universes as U, world
from mc.terms import Space, wraps

LEVEL = "model_checking"
ASSUMPTIONS = ["values are acyclic", "iterators are finite or infinite generators of plain items", "types are compared with named declarations resolved (C04 decides how they are spread)"]


def cut(v, n, keys_too):
    """v with only the first n items of everything the limit applies to."""
    import pandas as pd

    def go(x):
        return cut(x, n, keys_too)

    t = type(v)
    if isinstance(v, pd.DataFrame):
        return v.map(go).iloc[:n] if v.size else v.iloc[:n]
    if isinstance(v, pd.Series):
        first = v.iloc[:n]
        return pd.Series([go(x) for x in first], dtype=object, index=first.index, name=first.name) if first.dtype == object else first
    if isinstance(v, types.MappingProxyType):
        return types.MappingProxyType({k: go(x) for k, x in itertools.islice(v.items(), n)})
    if t in (dict, collections.OrderedDict, world.DictSub):
        items = v.items() if not keys_too else itertools.islice(v.items(), n)
        return t((k, go(x)) for k, x in items)
    if t in (list, world.ListSub, collections.deque, tuple, world.TupleSub, set, world.SetSub, frozenset, world.FrozenSub):
        return t(go(x) for x in itertools.islice(v, n))
    if t is world.Point:
        return tuple(go(x) for x in v[:n])
    if t is world.Counting:
        return world.Counting(*(go(x) for x in v.items[:n]))
    if t.__name__ == "generator":
        return world.gen(*(go(x) for x in itertools.islice(v, n)))
    if t.__name__.endswith("iterator") or t in (map, zip, reversed, enumerate, itertools.count):
        return iter([go(x) for x in itertools.islice(v, n)])
    return v


def ir(value, config):
    text = gen.text_of(value, config)
    return oracle.canon(oracle.module(text).ir("X"))


def iterators(v):
    if type(v) is world.Counting:
        yield v
        for x in v.items:
            yield from iterators(x)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            yield from iterators(x)
    elif isinstance(v, (dict, types.MappingProxyType)):
        for x in v.values():
            yield from iterators(x)


def consumable(v):
    if hasattr(v, "__next__"):
        yield v
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            yield from consumable(x)
    elif isinstance(v, (dict, types.MappingProxyType)):
        for x in v.values():
            yield from consumable(x)


def judge(case, rep):
    config = dict(case["config"])
    n = config.get("check_max_n_elements_within_container", 500)
    oracle._peeked.clear()
    value = world.build(case["value"])
    got = ir(value, config)
    for it in iterators(value):
        if n is not None and it.asked > n or it.asked > len(it.items) + 1:
            rep.violation(case, "drawn", f"{it.asked} items were asked of an iterator with limit {n}")
    if n is not None:
        keys_too = config.get("dict_strategy", "TypedDict") != "TypedDict"
        # The order of a set with an instance changes when it is built again
        reused = "Custom()" in case["value"] and case["value"].startswith(("{", "frozenset(", "set(")) and not any(True for _ in consumable(value))
        again = value if reused else world.build(case["value"])
        want = ir(cut(again, n, keys_too), {**config, "check_max_n_elements_within_container": None})
    elif "same" in case:
        want = ir(world.build(case["same"]), config)
    else:
        want = got
    rep.seen("outcomes", got)
    if got != want:
        rep.violation(case, "limit", f"with limit {n}: {got}; first {n} items alone: {want}")


def rows(n, leaves=("1", "'s'", "None", "[1]")):
    """Every sequence of up to n items inside every kind of container."""
    for k in range(n + 1):
        for items in itertools.product(leaves, repeat=k):
            inner = ", ".join(items)
            yield f"[{inner}]"
            yield f"({inner}{',' if k == 1 else ''})"
            yield f"Counting({inner})"
            yield f"gen({inner})"
            yield f"iter([{inner}])"
            yield f"pd.Series([{inner}], dtype=object)"
            yield "{" + ", ".join(f"'{'abcdefg'[i]}': {x}" for i, x in enumerate(items)) + "}"
            yield "{" + ", ".join(f"{i}: {x}" for i, x in enumerate(items)) + "}"
            yield "MappingProxyType({" + ", ".join(f"'{'abcdefg'[i]}': {x}" for i, x in enumerate(items)) + "})"
            yield f"collections.deque([{inner}])"
            yield f"[Counting({inner})]"
            yield f"{{'a': [{inner}]}}"


def mixed_keys(n):
    for k in range(1, n + 1):
        for ks in itertools.permutations(["'a'", "1", "None", "(1,)", "True"], k):
            d = ", ".join(f"{x}: {v}" for x, v in zip(ks, ["1", "'s'", "[1]", "None", "1.5"]))
            yield "{" + d + "}"
            yield "MappingProxyType({" + d + "})"


def dicts(n):
    pool = list(U.dict_pool(("a", "b"), ["1", "'s'"]))
    for ds in itertools.product(pool, repeat=n):
        for c in ("[{}]", "({})", "Counting({})", "{{'o': [{}]}}"):
            yield c.format(", ".join(ds))


def sets(n):
    for k in range(n + 1):
        for items in itertools.combinations(["1", "'s'", "None", "(1,)", "('s',)", "frozenset([1, 's'])", "1.5"], k):
            inner = ", ".join(items)
            yield f"set([{inner}])"
            yield f"frozenset([{inner}])"
            yield f"[frozenset([{inner}])]"


LONG = {
    "list": "[*[1] * {i}, 's', *[1] * {j}]",
    "tuple": "(*[1] * {i}, 's', *[1] * {j})",
    "iterator": "Counting(*[1] * {i}, 's', *[1] * {j})",
    "series": "pd.Series([*[1] * {i}, 's', *[1] * {j}], dtype=object)",
    "set": "set([*range({i}), 's', *range({i}, {i} + {j})])",
    "dict": "{{k: 's' if k == {i} else 1 for k in range({i} + 1 + {j})}}",
    "string dict": "{{f'k{{k}}': 's' if k == {i} else 1 for k in range({i} + 1 + {j})}}",
    "mapping proxy": "MappingProxyType({{k: 's' if k == {i} else 1 for k in range({i} + 1 + {j})}})",
    "nested": "[[[*[1] * {i}, 's', *[1] * {j}]]]",
    "in a dict": "{{'a': Counting(*[1] * {i}, 's', *[1] * {j})}}",
}
SHORT = {"list": "[1, 's']", "iterator": "Counting(1, 's')", "series": "pd.Series([1, 's'], dtype=object)", "set": "{1, 's'}", "dict": "{0: 1, 1: 's'}", "mapping proxy": "MappingProxyType({0: 1, 1: 's'})", "nested": "[[[1, 's']]]", "in a dict": "{'a': Counting(1, 's')}"}


def long_cases(tier):
    """A distinguishable element at every position around and below a limit."""
    L = "check_max_n_elements_within_container"
    for kind, e in LONG.items():
        positions = range(490, 506) if tier == "quick" else range(0, 506)
        if kind == "tuple" or kind == "string dict" or "dict" in kind:
            positions = range(497, 504)
        for i in positions:
            for config in [{}, {"dict_strategy": "dict"}] if "dict" in kind else [{}]:
                yield {"value": e.format(i=i, j=503 - i if i < 503 else 1), "config": config}
        for limit in [2, 7, 64] if tier == "quick" else [2, 3, 7, 64, 99, 100, 101, 255, 256]:
            for i in range(limit - 2, limit + 2):
                yield {"value": e.format(i=i, j=limit), "config": {L: limit}}
        if kind in SHORT:
            for i in [0, 1, 499, 500, 501, 999, 1500] if tier == "quick" else range(1, 2200, 13):
                yield {"value": e.format(i=i, j=2), "same": SHORT[kind], "config": {L: None, "dict_strategy": "dict"}}
    for limit in range(1, 9):
        for e in ["itertools.count()", "[itertools.count()]", "{'a': itertools.repeat('s')}", "itertools.cycle([1, 's', [1]])", "map(str, itertools.count())", "({'a': i} for i in itertools.count())", "(itertools.count() for _ in itertools.count())"]:
            yield {"value": e, "config": {L: limit}, "infinite": True}


def judge_infinite(case, rep):
    """Must come to an end, and admit the first items."""
    n = case["config"]["check_max_n_elements_within_container"]
    got = ir(world.build(case["value"]), case["config"])
    want = ir(cut(cut_infinite(world.build(case["value"]), n), n, False), {"check_max_n_elements_within_container": None})
    rep.seen("outcomes", got)
    if got != want:
        rep.violation(case, "limit", f"with limit {n}: {got}; first items alone: {want}")


def cut_infinite(v, n):
    if isinstance(v, list):
        return [cut_infinite(x, n) for x in v]
    if isinstance(v, dict):
        return {k: cut_infinite(x, n) for k, x in v.items()}
    if hasattr(v, "__next__"):
        return iter([cut_infinite(x, n) for x in itertools.islice(v, n)])
    return v


def limits(*ns, **more):
    return [{"check_max_n_elements_within_container": n, **more} for n in ns]


def plan(tier):
    q = tier == "quick"
    modes = limits(1, 2) + limits(1, 2, dict_strategy="dict")
    return [
        ("rows of up to 4 items" if q else "rows of up to 6 items", plans.once(rows, 4 if q else 6, ("1", "'s'", "[1]") if q else ("1", "'s'", "[1]")), limits(1, 2, 3, 4) + limits(2, dict_strategy="dict") if q else limits(1, 2, 3, 4, 5, None) + limits(1, 2, 3, 5, dict_strategy="Mapping")),
        ("mixed keys", plans.once(mixed_keys, 3 if q else 5), modes + limits(3)),
        ("groups of dicts", plans.once(dicts, 3), limits(1, 2) + (limits(1, 2, 3, merge_different_typed_dicts_if_similarity_above=1) if not q else [])),
        ("sets", plans.once(sets, 3 if q else 5), limits(1, 2, 3)),
        ("every kind of value", plans.leaves_wrapped if q else U.kinds1, modes if q else modes + limits(3, tuple_size_strategy="any size")),
        ("pairs of kinds", plans.once(U.kinds2, kinds=("list",) if q else ("list", "tuple", "dict")), limits(1) + (limits(1, dict_strategy="dict") if not q else [])),
        ("nested containers", plans.once(U.structure, 4 if q else 5), modes if not q else limits(1) + limits(1, dict_strategy="Mapping")),
        ("all containers", plans.once(U.structure_all, 4 if q else 5), modes if q else modes),
        ("chains of 3 containers", plans.once(U.chains, 3, payloads=["1, 's'"]), [c for c in U.CHAIN_FULL if c["check_max_n_elements_within_container"] == 1]),
        ("chains of 4 containers", plans.once(U.chains, 4, payloads=["1, 's'", "[1], ['s'], None"] if not q else ["1, 's'"]), [{**c, "check_max_n_elements_within_container": 1} for c in (U.ONE_FACTOR[:7] if q else U.PAIRS) if "check_max_n_elements_within_container" not in c]),
        ("containers of many different children", plans.once(U.wide, 6 if q else 20), limits(*((2, 5) if q else (1, 2, 3, 7, 14, 15)))),
        ("containers of similar children", plans.once(U.alike, 5 if q else 14), limits(*((1, 3) if q else (1, 2, 3, 8, 13)))),
        ("chains of many containers", plans.once(U.deep, 6 if q else 12), modes[:1] + modes[2:3]),
        ("long values", lambda: (), []),
    ]


def run(tier):
    oracle.install_series_shim()
    rep = termcheck.explore(plan(tier), judge)
    longs = list(long_cases(tier))

    def work(items, i, n, r):
        for case in items[i::n]:
            r.count("executions")
            r.count("executions long values")
            r.seen("states", case["value"])
            termcheck.guarded(judge_infinite if "infinite" in case else judge, case, r)

    more = runner.parallel(work, longs)
    rep.merge(more)
    return rep, termcheck.coverage(rep, "every value of the listed universes under every listed limit, compared with the truncated value without a limit; a distinguishable element at every position near limits up to 500 in long containers, and infinite iterators under limits 1 to 8")


def replay(case, rep):
    oracle.install_series_shim()
    termcheck.guarded(judge_infinite if "infinite" in case else judge, case, rep)
