"""Which universes are explored under which configurations, per tier."""
from . import universes as U

D = [{}]
NOTD = [{"dict_strategy": "dict"}, {"dict_strategy": "Mapping"}]
CORE = [{}, {"tuple_size_strategy": "any size"}, {"dict_strategy": "dict"}, {"min_height_to_define_type_alias": 3}]


def once(f, *a, **k):
    return lambda: f(*a, **k)


def leaves_wrapped():
    for e in U.LEAVES + U.FRAMES:
        yield e
        yield from U.wraps(e)


def generic(tier):
    thorough = tier == "thorough"
    plan = [
        ("every kind of value, wrapped once", leaves_wrapped, U.ONE_FACTOR),
        ("every kind of value, wrapped twice", U.kinds1, D),
        ("pairs of kinds as siblings", once(U.kinds2, kinds=("list",)), D),
        ("pairs of kinds in a dict", once(U.kinds2, kinds=("dict",)), [{"dict_strategy": "dict"}]),
        ("every key", U.keys1, [{}, {"dict_strategy": "dict"}, {"min_height_to_define_type_alias": 0}]),
        ("nested containers to 4 nodes", once(U.structure, 4), U.ONE_FACTOR),
        ("nested containers to 5 nodes", once(U.structure, 5), D),
        ("all containers to 4 nodes", once(U.structure_all, 4), CORE),
        ("numbers to 4 nodes", once(U.numbers, 4), CORE),
        ("classes to 4 nodes", once(U.classes, 4), CORE),
        ("groups of 2 dicts", once(U.dict_groups, 2), D),
        ("groups of 3 dicts", once(U.dict_groups, 3, values=["1", "1.5"]), [{}, {"merge_different_typed_dicts_if_similarity_above": 1}]),
        ("nested keys to 3 nodes", once(U.nested_names, 3), CORE),
        ("pairs of keys", once(U.keys2, values=(("[[1]]", "[['s']]"),)), D),
        ("containers of up to 8 different children", once(U.wide, 8), D),
        ("containers of all different children", once(U.wide, 20), CORE) if thorough else ("containers of all different children", lambda: list(U.wide(20))[-140:], D),
        ("containers of up to 5 similar children", once(U.alike, 5), D),
        ("chains of up to 8 containers", once(U.deep, 8), CORE),
        ("long containers", U.many, CORE if thorough else D),
        ("long names", U.long_names, D),
        ("chains of 3 containers", once(U.chains, 3, payloads=["1, 's'"]), U.CHAIN_FULL),
        ("chains of 4 containers", once(U.chains, 4, payloads=["1, 's'"], kinds=["list", "tuple", "dict", "iter"]), U.PAIRS),
    ]
    if thorough:
        plan += [
            ("every kind of value, wrapped twice", U.kinds1, U.ONE_FACTOR[1:]),
            ("containers of up to 14 similar children", once(U.alike, 14), CORE),
            ("chains of up to 14 containers", once(U.deep, 14), U.ONE_FACTOR),
            ("pairs of kinds as siblings", U.kinds2, CORE),
            ("all containers to 5 nodes", once(U.structure_all, 5), D),
            ("nested containers to 5 nodes", once(U.structure, 5), U.ONE_FACTOR[1:]),
            ("nested containers to 6 nodes", once(U.structure, 6), D),
            ("nested containers to 3 nodes", once(U.structure, 3), U.FULL),
            ("numbers to 5 nodes", once(U.numbers, 5), CORE),
            ("classes to 5 nodes", once(U.classes, 5), CORE),
            ("nested keys to 4 nodes", once(U.nested_names, 4), CORE),
            ("pairs of keys", U.keys2, [{}, {"dict_strategy": "dict"}]),
            ("groups of 2 dicts", once(U.dict_groups, 2), U.ONE_FACTOR[1:]),
            ("groups of 3 dicts", once(U.dict_groups, 3, values=["1", "1.5", "[1]"], kinds=("list",)), D),
            ("chains of 3 containers", once(U.chains, 3), U.CHAIN_FULL),
            ("chains of 4 containers", once(U.chains, 4, payloads=["1, 's'"]), U.PAIRS),
            ("chains of 5 containers", once(U.chains, 5, payloads=["1, 's'"], kinds=["list", "tuple", "dict", "mproxy", "iter"]), U.ONE_FACTOR),
        ]
    return plan
