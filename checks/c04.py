"""C04: every strategy changes exactly the aspect it names.

Differential model checking: the type under one choice, rewritten by the
strategy's meaning, must be the type under the other choice.
"""
from mc import gen, oracle, plans, termcheck, world
from mc import universes as U
from mc.oracle import canon, promote, union, walk

oracle.install_series_shim()
LEVEL = "model_checking"
ASSUMPTIONS = [
    "values with several dictionaries next to each other are compared only for strategies that do not alter whether they are merged (that is C18)",
    "int next to float is compared as float",
]
NON_DEFAULT = {
    "list_strategy": "Sequence",
    "tuple_size_strategy": "any size",
    "typed_dict_read_only_values": True,
    "min_height_to_define_type_alias": 0,
    "check_max_n_elements_within_container": None,
    "merge_different_typed_dicts_if_similarity_above": 1,
}
BASES = [{}, dict(NON_DEFAULT), {**NON_DEFAULT, "dict_strategy": "Mapping", "min_height_to_define_type_alias": 3}]
# every choice of the value strategies at once
CHAIN_BASES = [{k: v for k, v in c.items() if k != "min_height_to_define_type_alias"} for c in U.CHAIN_FULL if c["min_height_to_define_type_alias"] == 1]


def sub(kind, f):
    return lambda ir: walk(ir, lambda n: f(n) if n[0] == kind else n)


def td_to_dict(n):
    if not n[1]:
        return ("dict", ("any",), ("any",))
    return ("dict", ("cls", str), union(t for _, t, _, _ in n[1]))


def tuple_to_vtuple(n):
    return ("vtuple", union(n[1]) if n[1] else ("any",))


def read_only(n):
    return ("td", tuple((k, t, r, True) for k, t, r, _ in n[1]))


# aspect: (field, from, to, rewriting, only without neighbouring dicts)
RELATIONS = [
    ("list_strategy", "list", "Sequence", sub("list", lambda n: ("seq", n[1])), False),
    ("tuple_size_strategy", "fixed", "any size", sub("tuple", tuple_to_vtuple), True),
    ("dict_strategy", "dict", "Mapping", sub("dict", lambda n: ("map", n[1], n[2])), False),
    ("dict_strategy", "TypedDict", "dict", sub("td", td_to_dict), True),
    ("typed_dict_read_only_values", False, True, sub("td", read_only), False),
    ("min_height_to_define_type_alias", 1, 0, lambda ir: ir, False),
    ("min_height_to_define_type_alias", 1, 2, lambda ir: ir, False),
    ("min_height_to_define_type_alias", 1, 7, lambda ir: ir, False),
]
CONTAINERS = ("list", "seq", "tuple", "vtuple", "set", "fset", "dict", "map", "mproxy", "iter", "series")


def height(ir):
    k = ir[0]
    if k == "union":
        return max(map(height, ir[1]))
    if k == "tuple":
        return 1 + max([0, *map(height, ir[1])])
    if k == "td":
        return 1 + max([0, *(height(t) for _, t, _, _ in ir[1])])
    if k in ("dict", "map", "mproxy"):
        return 1 + height(ir[2])
    if k in CONTAINERS:
        return 1 + height(ir[1])
    return 0


def named(ir, limit):
    """Types that must have a declaration of their own."""
    for n in oracle.nodes(ir):
        if n[0] in ("td", "call", "callr", "proto", "df") or n[0] in CONTAINERS and height(n) > limit:
            yield canon(n)
    yield canon(ir)


def dict_neighbours(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return sum(isinstance(e, dict) for e in v) > 1 or any(map(dict_neighbours, v))
    if isinstance(v, dict) or type(v).__name__ == "mappingproxy":
        return any(map(dict_neighbours, v.values()))
    return hasattr(v, "__next__") and not hasattr(v, "read") and dict_neighbours(list(v))


def judge(case, rep):
    value, base = case["value"], case["config"]
    cache = {}

    def module(config):
        key = tuple(sorted(config.items(), key=str))
        if key not in cache:
            text = gen.text(value, config)
            rep.seen("outcomes", text)
            rep.count("modules")
            cache[key] = oracle.module(text)
        return cache[key]

    neighbours = dict_neighbours(world.build(value))
    for field, a, b, rewrite, exclusive in RELATIONS:
        if exclusive and neighbours:
            continue
        if a == "TypedDict" and any(c in value for c in ("StrSub", "Named", "Fruit", "np.str_")):  # its class only shows in the key type of a dict
            continue
        one, two = module({**base, field: a}).ir("X"), module({**base, field: b}).ir("X")
        want, got = promote(rewrite(one)), promote(two)
        rep.count("relations")
        if want != got:
            rep.violation(case, "aspect " + field, f"{a} -> {b}: expected {canon(want)}, got {canon(got)}")
    if "DataFrame" in value:
        return
    for limit in (0, 1, 2, 7):
        mod = module({**base, "min_height_to_define_type_alias": limit})
        declared = {canon(mod.ir(d)) for d in mod.declared}
        want = set(named(mod.ir("X"), limit))
        rep.count("relations")
        if declared != want:
            rep.violation(case, "naming", f"limit {limit}: missing {sorted(want - declared)}, unexpected {sorted(declared - want)}")


def run(tier):
    O = plans.once
    plan = [
        ("every kind of value, wrapped once", plans.leaves_wrapped, BASES),
        ("every kind of value, wrapped twice", U.kinds1, BASES[:1]),
        ("nested containers to 4 nodes", O(U.structure, 4), BASES),
        ("all containers to 4 nodes", O(U.structure_all, 4), BASES[:1]),
        ("numbers to 4 nodes", O(U.numbers, 4), BASES[:1]),
        ("nested keys to 3 nodes", O(U.nested_names, 3), BASES),
        ("every key", U.keys1, BASES[:1]),
        ("groups of 2 dicts", O(U.dict_groups, 2, values=["1", "[1]", "(1, 's')"]), BASES),
        ("chains of 3 containers", O(U.chains, 3, payloads=["1, 's'"]), CHAIN_BASES[1:8]),
        ("containers of many different children", O(U.wide, 6), BASES[:1]),
        ("containers of up to 4 similar children", O(U.alike, 4), BASES[:1]),
        ("long containers", O(U.many, [17, 65, 129, 257, 400]), BASES[:1]),
        ("chains of up to 7 containers", O(U.deep, 7), BASES[:1]),
    ]
    if tier == "thorough":
        plan += [
            ("chains of 3 containers", O(U.chains, 3), CHAIN_BASES),
            ("chains of 4 containers", O(U.chains, 4, payloads=["1, 's'"]), BASES),
            ("nested containers to 5 nodes", O(U.structure, 5), BASES),
            ("all containers to 5 nodes", O(U.structure_all, 5), BASES[:1]),
            ("pairs of kinds as siblings", U.kinds2, BASES[:1]),
            ("nested keys to 4 nodes", O(U.nested_names, 4), BASES[:1]),
            ("numbers to 5 nodes", O(U.numbers, 5), BASES[:1]),
            ("nested containers to 6 nodes", O(U.structure, 6), BASES[:1]),
            ("containers of all different children", O(U.wide, 20), BASES),
            ("containers of up to 12 similar children", O(U.alike, 12), BASES),
            ("chains of up to 12 containers", O(U.deep, 12), BASES),
        ]
    rep = termcheck.explore(plan, judge)
    cov = termcheck.coverage(rep, "all values of each universe x base configurations; each strategy relation compares two modules made by the real code")
    cov["relations_compared"] = rep.counts.get("relations", 0)
    cov["modules_executed"] = rep.counts.get("modules", 0)
    return rep, cov


def replay(case, rep):
    termcheck.guarded(judge, case, rep)
