"""C18: every group of dictionaries under every threshold, against a reference
merge."""
import itertools
import os
import shutil
import tempfile

import yaml

from mc import gen, oracle, plans, runner, termcheck, universes as U, world
from mc.gen import LazyTypeHint, strategies

LEVEL = "model_checking"
ASSUMPTIONS = [
    "values of a key are incompatible if their generated types differ, int together with float aside",
    "documentation keys count as keys, comments of YAML files do not",
    "iterators inside the dictionaries are excluded (known finding of C03)",
]
T = "merge_different_typed_dicts_if_similarity_above"
KINDS = {
    "list": ("[{}]", "list"),
    "tuple": ("({},)", "tuple"),
    "any tuple": ("({},)", "vtuple"),
    "sequence": ("[{}]", "seq"),
    "iterator": ("iter([{}])", "iter"),
    "generator": ("gen({})", "iter"),
    "series": ("pd.Series([{}], dtype=object)", "series"),
}
KIND_CONFIG = {"any tuple": {"tuple_size_strategy": "any size"}, "sequence": {"list_strategy": "Sequence"}}
INT, FLOAT = ("cls", int), ("cls", float)
_alone = {}


def alone(expr, config):
    """The type of a value on its own."""
    key = expr, str(sorted(config.items(), key=str))
    if key not in _alone:
        _alone[key] = oracle.module(gen.text(expr, config)).ir("X")
    return _alone[key]


def is_typed(expr):
    return isinstance(world.build(expr), dict) and all(isinstance(k, str) for k in world.build(expr))


def compatible(types):
    return len(types) == 1 or types == {INT, FLOAT}


def merged(tds, threshold):
    """What becomes of distinct TypedDicts found together."""
    distinct = list(dict.fromkeys(tds))
    keys = [{f[0] for f in td[1]} for td in distinct]
    every, common = set().union(*keys), set.intersection(*keys)
    if len(distinct) < 2 or 100 * len(common) < threshold * len(every):
        return distinct
    types, readonly, required = {}, {}, {}
    for td in distinct:
        for key, t, req, ro in td[1]:
            types.setdefault(key, set()).add(t)
            readonly[key] = ro
            required[key] = required.get(key, True) and req
    if not all(map(compatible, types.values())):
        return distinct
    return [("td", tuple(sorted((k, FLOAT if len(types[k]) == 2 else next(iter(types[k])), k in common and required[k], readonly[k]) for k in every)))]


def expected(members, kind, threshold, config):
    irs = [alone(m, config) for m in members]
    typed = [i for m, i in zip(members, irs) if is_typed(m)]
    result = merged(typed, threshold) if typed else []
    swap = {i: result[0] if len(result) == 1 else i for i in typed}
    irs = [swap[i] if is_typed(m) else i for m, i in zip(members, irs)]
    shape = KINDS[kind][1]
    ir = ("tuple", tuple(irs)) if shape == "tuple" else (shape, oracle.union(irs))
    return ir, result


def td_declarations(mod):
    return [d for d in mod.declared if mod.ir(d)[0] == "td"]


def judge(case, rep):
    members, kind, config = case["members"], case["kind"], {**case["config"], **KIND_CONFIG.get(case["kind"], {})}
    threshold = config.get(T, 80)
    value = case.get("in", "{}").replace("{}", KINDS[kind][0].format(", ".join(members)))
    text = gen.text(value, config)
    mod = oracle.module(text)
    got = mod.ir("X")
    if "in" in case:
        got = got[1] if got[0] == "list" else got[1][0][1] if got[0] == "td" else got[2]
    want, tds = expected(members, kind, threshold, {k: v for k, v in config.items() if k != T})
    want, got = oracle.canon(oracle.promote(want)), oracle.canon(oracle.promote(got))
    rep.seen("outcomes", (threshold, got))
    if got != want:
        rep.violation(case, "merge", f"{value} at {threshold} %: expected {want}, got {got}")
    flat = all(not (isinstance(v, (dict, list, tuple, set))) for m in members if is_typed(m) for v in world.build(m).values())
    if flat and "in" not in case and not any("{'" in m for m in members if not is_typed(m)):
        found = td_declarations(mod)
        if len(found) != len(tds):
            rep.violation(case, "declarations", f"{value} at {threshold} %: {len(tds)} declarations expected, {len(found)} found")


def sized(keys, value="1"):
    return ["{" + ", ".join(f"'{k}': {value}" for k in ks) + "}" for n in range(len(keys) + 1) for ks in itertools.combinations(keys, n)]


def shares(n_keys):
    """Thresholds on both sides of every share of keys there can be."""
    out = {1, 80, 100}
    for d in range(1, n_keys + 1):
        for n in range(1, d + 1):
            out |= {100 * n // d, 100 * n // d + 1, 100 * n // d - 1}
    return sorted(t for t in out if 1 <= t <= 100)


VALUES = ["1", "1.5", "True", "'s'", "None", "[1]", "['s']", "[1.5]", "[]", "(1,)", "{'x': 1}", "{'y': 1}", "{'x': 's'}", "{'x': 1.5}", "{}", "{1: 1}", "{1: 's'}", "lambda a, b=1: a", "Custom()", "int", "{1}", "MappingProxyType({'x': 1})", "[{'x': 1}, {'y': 1}]", "{'x': {'z': 1}}", "[[1]]", "IntSub(1)", "np.float64(1.5)"]
OTHERS = ["1", "None", "{1: 1}", "MappingProxyType({'a': 1})", "[{'a': 1}]", "{None: 1}", "{'a': 1}"]


def cases(tier):
    q = tier == "quick"
    one = lambda t: {T: t}
    # key sets x thresholds
    for ds in itertools.product(sized("abcd"), repeat=2):
        for t in range(1, 101):
            yield {"members": ds, "kind": "list", "config": one(t)}
    for ds in itertools.product(sized("abc"), repeat=3):
        for t in shares(3) if q else range(1, 101):
            yield {"members": ds, "kind": "list", "config": one(t)}
    for ds in itertools.product(sized("ab") if q else sized("abc"), repeat=4):
        for t in shares(3):
            yield {"members": ds, "kind": "list", "config": one(t)}
    big = ["".join(chr(97 + i) for i in range(n)) for n in range(1, 22)]
    for a, b in itertools.product(big, repeat=2):  # shares with larger denominators
        for t in sorted({100 * min(len(a), len(b)) // max(len(a), len(b)) + k for k in (-1, 0, 1)} & set(range(1, 101))):
            yield {"members": [sized(a)[-1] if len(a) < 6 else "{" + ", ".join(f"'{c}': 1" for c in a) + "}", "{" + ", ".join(f"'{c}': 1" for c in reversed(b)) + "}"], "kind": "list", "config": one(t)}
    # any key, or any two, missing in one of several large dictionaries
    for n in range(5, 14 if q else 20):
        keys = "abcdefghijklmnopqrst"[:n]
        for k in range(n):
            for j in range(n):
                rest = [c for i, c in enumerate(keys) if i not in (k, j)]
                pair = ["{" + ", ".join(f"'{c}': 1" for c in ks) + "}" for ks in (keys, rest)]
                yield {"members": pair, "kind": "list", "config": one(1)}
                yield {"members": [*pair[::-1], "{" + ", ".join(f"'{c}': 1" for c in reversed(keys[1:])) + "}"], "kind": "tuple", "config": one(1)}
    # key sets x containers x other strategies
    for kind in KINDS:
        for n in (2, 3):
            for ds in itertools.product(sized("ab") if n == 3 else sized("abc"), repeat=n):
                for t in (1, 33, 34, 50, 51, 80, 100):
                    yield {"members": ds, "kind": kind, "config": one(t)}
    for where in ("[{}]", "{'o': {}}", "{1: {}}"):
        for ds in itertools.product(sized("ab"), repeat=3):
            for t in (1, 50, 51, 100):
                yield {"members": ds, "kind": "list", "config": one(t), "in": where}
    for more in ({"typed_dict_read_only_values": True}, {"min_height_to_define_type_alias": 0}, {"min_height_to_define_type_alias": 3}, {"key_used_as_doc": "a"}, {"check_max_n_elements_within_container": None}):
        for ds in itertools.product(sized("ab"), repeat=3):
            for t in (1, 50, 51):
                yield {"members": ds, "kind": "list", "config": {**one(t), **more}}
    # value types
    pool = list(U.dict_pool("ab", VALUES[:20] if not q else VALUES[:15]))
    for ds in itertools.product(pool, repeat=2):
        for t in (1,) if q else (1, 50, 51):
            yield {"members": ds, "kind": "list", "config": one(t)}
    for vs in itertools.product(VALUES, repeat=2):
        for a, b in (("{'a': %s}", "{'a': %s, 'b': 1}"), ("{'a': %s}", "{'a': %s}"), ("{'b': 1, 'a': %s}", "{'a': %s}")):
            for kind in KINDS:
                yield {"members": [a % vs[0], b % vs[1]], "kind": kind, "config": one(1)}
    for vs in itertools.product(VALUES[:11] if q else VALUES, repeat=3):
        for kind in ("list", "tuple"):
            yield {"members": ["{'a': %s}" % vs[0], "{'a': %s, 'b': 1}" % vs[1], "{'b': 1.5, 'a': %s}" % vs[2]], "kind": kind, "config": one(1)}
    small = list(U.dict_pool("ab", ["1", "1.5", "'s'"] if q else ["1", "1.5", "'s'", "[1]"]))
    for ds in itertools.product(small, repeat=3):
        for t in (1, 50) if q else (1, 33, 34, 50, 51):
            yield {"members": ds, "kind": "list", "config": one(t)}
    tiny = list(U.dict_pool("ab", ["1", "1.5"]))
    for ds in itertools.product(tiny, repeat=4):
        for t in (1, 50) if not q else (1,):
            yield {"members": ds, "kind": "list", "config": one(t)}
    # among other siblings, at every place
    for o in OTHERS:
        for ds in itertools.product(sized("ab"), repeat=2):
            for k in range(3):
                for kind in KINDS:
                    for t in (1, 51):
                        yield {"members": [*ds[:k], o, *ds[k:]], "kind": kind, "config": one(t)}


# YAML documents whose keys are commented
def documents():
    for sets in itertools.product([("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "b", "c")], repeat=2):
        spots = [(i, k) for i, ks in enumerate(sets) for k in ks]
        for mask in range(2 ** len(spots)):
            commented = {s for j, s in enumerate(spots) if mask >> j & 1}
            yield written(sets, commented), sets


    # larger dictionaries: any key missing, in the first or in the second one
    for n in range(3, 9):
        keys = tuple("abcdefgh"[:n])
        for gap in [{k} for k in keys] + [set(keys[1:3]), set(keys[-2:])]:
            less = tuple(k for k in keys if k not in gap)
            for sets in ((keys, less), (less, keys), (less, keys, keys[1:])):
                spots = [(i, k) for i, ks in enumerate(sets) for k in ks]
                for commented in [set(), set(spots), *({s} for s in spots), *(set(spots) - {s} for s in spots), *({s for s in spots if s[0] == i} for i in range(len(sets)))]:
                    yield written(sets, commented), sets


def written(sets, commented):
    return "".join(("- " if j == 0 else "  ") + f"{k}: 1" + (f" # Note {i}{k}" if (i, k) in commented else "") + "\n" for i, ks in enumerate(sets) for j, k in enumerate(ks))


def judge_yaml(case, rep):
    root = tempfile.mkdtemp(prefix="c18-")
    try:
        path = os.path.join(root, "a.yaml")
        with open(path, "w") as f:
            f.write(case["yaml"])
        for t in shares(3) if max(map(len, case["sets"])) < 4 else (1, 100):
            made = LazyTypeHint(strategies({T: t})).from_yaml_file(lambda p: yaml.safe_load(open(p)), path, class_name="X")
            mod = oracle.module(made.to_string())
            members = ["{" + ", ".join(f"'{k}': 1" for k in ks) + "}" for ks in case["sets"]]
            want, tds = expected(members, "list", t, {})
            want, got = oracle.canon(want), oracle.canon(mod.ir("X"))
            rep.seen("outcomes", (t, got))
            if got != want or len(td_declarations(mod)) != len(tds):
                rep.violation(case, "commented", f"at {t} %: expected {want}, got {got}")
    finally:
        shutil.rmtree(root)


def run(tier):
    oracle.install_series_shim()

    def work(_, i, n, rep):
        for case in itertools.islice(cases(tier), i, None, n):
            rep.count("executions")
            rep.seen("states", (case["kind"], tuple(case["members"])))
            rep.seen("transitions", (case["kind"], tuple(case["members"]), str(case["config"])))
            if rep.counts["executions"] % 4999 == 1:
                rep.sample(case)
            termcheck.guarded(judge, {**case, "members": list(case["members"])}, rep)
        for text, sets in itertools.islice(documents(), i, None, n):
            rep.count("executions")
            rep.seen("states", text)
            rep.seen("transitions", text)
            termcheck.guarded(judge_yaml, {"yaml": text, "sets": [list(s) for s in sets]}, rep)

    rep = runner.parallel(work, None)
    return rep, termcheck.coverage(rep, "every ordered group of up to four dictionaries over up to four keys and the listed values, in every container kind, at every threshold (or on both sides of every share there can be), among other siblings, nested, and with commented keys in YAML documents; a state is a group, a transition a generation at a threshold")


def replay(case, rep):
    oracle.install_series_shim()
    termcheck.guarded(judge_yaml if "yaml" in case else judge, case, rep)
