"""Named, bounded universes of states (value expressions)."""
import itertools

from .terms import MAPS, WRAP, Space, wraps

LEAVES = """None;True;1;1.5;'s';b'x';1j;range(3);slice(1);Ellipsis;bytearray(b'a');int;str;type(None);Custom;Child;type;Meta;WithMeta;Color;Alarm
Custom();Alarm();Child();Color.RED;Fruit.APPLE;Level.LOW;Named('a');IntSub(1);StrSub('a');Key(1);Point(1, 's');Point(1, 2);decimal.Decimal(1);datetime.date(2020, 1, 1);datetime.datetime(2020, 1, 1);fractions.Fraction(1, 2);pathlib.PurePosixPath('a')
math;typing;io.StringIO('a');io.BytesIO(b'a');open('/dev/null');open('/dev/null', 'rb')
np.array([1, 2]);np.array([1.5]);np.array(['a']);np.array([True]);np.array([1], dtype=np.int8);np.array([[1, 2], [3, 4]]);np.array(['2020-01-01'], dtype='datetime64[ns]');np.array([None]);np.array([1j]);np.float64(1.5);np.int64(1)
lambda: 1;lambda a: a;lambda a, b=1: a;fn_plain;fn_none;fn_any;fn_args;Custom.meth;Custom().meth;Custom.cmeth;Custom.smeth;Custom.__dict__['cmeth'];Custom.__dict__['smeth'];len;print;abs;dict.fromkeys
collections.OrderedDict(a=1);collections.defaultdict(list, {'a': 1});collections.deque([1]);DictSub(a=1);ListSub([1]);SetSub([1]);FrozenSub([1]);TupleSub((1, 's'))
[];();set();frozenset();{};MappingProxyType({});iter([]);gen();pd.Series([], dtype=object)
iter([1]);iter((1, 's'));gen(1, 's');map(str, [1]);zip([1], ['a']);reversed([1]);enumerate(['a'])
pd.Series([1, 2]);pd.Series([1.5]);pd.Series(['a']);pd.Series([True]);pd.Series([1, 'a'], dtype=object);pd.Series([[1], ['s']])"""
LEAVES = [e for line in LEAVES.splitlines() for e in line.split(";")]
FRAMES = [
    "pd.DataFrame({'a': [1], 'b': ['x']})",
    "pd.DataFrame({'a': ['x'], 'b': ['x']})",
    "pd.DataFrame({})",
    "pd.DataFrame({1: [1]})",
    "pd.DataFrame({(1, 2): [1], (1, 3): ['a']})",
    "pd.DataFrame({1.5: [1]})",
    "pd.DataFrame({('b', 2): [1], ('a', 3): ['a'], ('b', 1): [None]}, index=[3])",
    "pd.DataFrame({('b', 'y', 2): [1, 2], ('a', 'x', 3): ['a', 's'], ('b', 'x', 1): [1.5, 2]}, index=[3, 1])",
    "pd.DataFrame({('b', 'y', 2, 0): [1], ('a', 'x', 3, 0): ['a'], ('b', 'x', 1, 1): [1.5]})",
    "pd.DataFrame({'b': [1, 2, 1], 'a': ['x', None, 'x']}, index=pd.Index([3, 1, 1], name='n'))",
]
# stateless enough to be compared before/after or used in several places
PLAIN = [e for e in LEAVES if "gen(" not in e and "iter" not in e]


def kinds1(frames=True):
    """Every leaf kind, alone and inside one and two containers."""
    for e in LEAVES + (FRAMES if frames else []):
        yield e
        for w in wraps(e):
            yield w
            yield from wraps(w)


def kinds2(leaves=None, kinds=("list", "tuple", "dict")):
    """Every ordered pair of leaf kinds as siblings."""
    leaves = leaves or LEAVES + FRAMES[:3]
    for a, b in itertools.product(leaves, repeat=2):
        for k in kinds:
            yield WRAP[k]([f"'a': {a}", f"'b': {b}"] if k in MAPS else [a, b])


def structure(n):
    return Space(["1", "'s'"], ["list", "tuple", "set", "dict"])  .upto(n)


def structure_all(n):
    return Space(["1"], ["list", "tuple", "set", "frozenset", "dict", "mproxy", "iter"]).upto(n)


def numbers(n):
    return Space(["1", "1.5", "True", "None"], ["list", "tuple", "dict"]).upto(n)


def classes(n):
    return Space(["int", "Custom", "Custom()", "1"], ["list", "tuple", "dict"]).upto(n)


VALUES = ["1", "1.5", "'s'", "[1]", "['s']", "{'x': 1}", "{'y': 1}"]


def dict_pool(keys, values):
    """Every dict with a subset of keys (in order) and any values."""
    for n in range(len(keys) + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(values, repeat=n):
                yield "{" + ", ".join(f"'{k}': {v}" for k, v in zip(ks, vs)) + "}"


def dict_groups(n, keys=("a", "b"), values=VALUES, kinds=("list", "tuple")):
    """Every ordered group of n pool dicts as siblings."""
    pool = list(dict_pool(keys, values))
    for ds in itertools.product(pool, repeat=n):
        for k in kinds:
            yield WRAP[k](list(ds))


KEYS = [
    "a", "b", "A", "a b", "aB", "a_b", "a-b", "ab", "", " ", "  ", "_", "__", "__a", "__a__", "_a", "1", "1a", "2", "12ab", "a1", "1 a",
    "class", "__debug__", "None", "True", "def", "match", "type", "print", "List", "Dict", "int", "str", "self", "X", "XA", "TypedDict", "NotRequired",
    "a.b", "a/b", "a:b", "a\nb", "a\tb", "a'b", 'a"b', "a\\b", "{", "}", "{}", "{key}", "{0}", "%s", "a=b", "#", '"""', "'", '"', "\\", "\\n",
    "é", "ñandu", "nº", "²", "a²", "ª", "ﬁ", "日本", "😀", "\u2028", "\x00", "a\x7f", "ß", "İ", "ǆ", "٣", "a٣",
    "list", "dict", "tuple", "set", "list2", "dict2", "key", "value", "name", "TypeAlias", "annotations", "Any", "Union", "Optional",
]
KEY_OBJECTS = [
    "None", "True", "1", "1.5", "b'x'", "(1, 2)", "('a',)", "frozenset([1])", "int", "Custom", "Alarm", "Alarm()", "Color.RED", "Key(1)", "Key(2)", "datetime.date(2020, 1, 1)", "Ellipsis", "1j", "range(2)", "len", "math", "IntSub(3)", "StrSub('q')", "Point(1, 2)",
    "Fruit.APPLE", "Fruit.PLUM", "Named('apple')", "Named('plum tree')", "Named('_')", "np.str_('q')", "Level.LOW",
]
KEY_VALUES = ["1", "[['s']]", "{'y': [[1]]}"]


def keys1():
    """Every key spelling and key object, with every value shape."""
    for k in [repr(k) for k in KEYS] + KEY_OBJECTS:
        for v in KEY_VALUES:
            yield f"{{{k}: {v}}}"
            yield f"MappingProxyType({{{k}: {v}}})"
            yield f"[{{{k}: {v}}}]"
            yield f"{{'o': {{{k}: {v}}}}}"


def keys2(values=(("[[1]]", "[['s']]"), ("1", "{'y': 1}"), ("{'y': 1}", "{'y': 's'}"))):
    """Every ordered pair of keys."""
    ks = [repr(k) for k in KEYS] + KEY_OBJECTS
    for a, b in itertools.permutations(ks, 2):
        for u, v in values:
            yield f"{{{a}: {u}, {b}: {v}}}"


def nested_names(n):
    """Deep dicts whose derived names can clash."""
    return Space(["1", "[[1]]", "[['s']]"], ["dict"], keys=("'a'", "'b'", "'a b'", "'A'", "'list'", "''"), key_choice="free").upto(n)


# wide and deep values: each one is its predecessor with one more child (level)
MIXED = [
    "1", "'s'", "1.5", "b'x'", "True", "None", "1j", "(1, 's')", "range(3)", "frozenset([1])", "Custom()", "int", "()", "Color.RED",
]
OPEN_MIXED = [
    "[1]", "{1}", "{'a': 1}", "(1,)", "{1: 2}", "MappingProxyType({'a': 1})", "frozenset([1])", "iter([1])", "io.StringIO('a')", "io.BytesIO(b'a')", "None", "fn_plain",
    "lambda a: a", "int", "np.array([1])", "math", "pd.DataFrame({'a': [1]})", "len", "Custom()", "1",
]
OPEN_KINDS = ["list", "tuple", "dict", "mproxy", "iter", "gen"]


def row(kind, items):
    if kind == "intdict":
        return "{" + ", ".join(f"{k}: {e}" for k, e in zip(KEY_OBJECTS, items)) + "}"
    return WRAP[kind]([f"'k{n}': {e}" for n, e in enumerate(items)] if kind in MAPS else items)


def wide(n):
    """Every container of up to n children of different types, starting with any of them."""
    for alphabet, kinds in ((MIXED, OPEN_KINDS + ["set", "frozenset", "series", "intdict"]), (OPEN_MIXED, OPEN_KINDS + ["intdict"])):
        for start in range(len(alphabet)):
            turned = alphabet[start:] + alphabet[:start]
            for size in range(1, min(n, len(alphabet)) + 1):
                for k in kinds:
                    yield row(k, turned[:size])


def alike(n):
    """Every container of up to n children of the same kind with different content, or of the same content."""
    for inner in ("list", "tuple", "set", "dict", "mproxy", "series"):
        children = [WRAP[inner]([f"'a': {e}" if inner in MAPS else e]) for e in MIXED]
        keyed = [f"{{'k{m}': {e}}}" for m, e in enumerate(MIXED)] if inner == "dict" else []
        for pool in filter(None, (children, [children[0]] * n, keyed, [children[m % 2] for m in range(n)])):
            for size in range(2, n + 1):
                for k in ("list", "tuple", "dict", "mproxy", "iter", "intdict"):
                    yield row(k, pool[:size])


def deep(n, kinds=("list", "tuple", "dict", "intdict", "mproxy", "iter")):
    """Every chain of up to n containers of one kind, or of two kinds in turns."""
    for a, b in itertools.product(kinds, repeat=2):
        for payload in ("1", "[1, 's']"):
            e = payload
            for depth in range(n):
                e = link((a, b)[depth % 2], e)
                yield e


LENGTHS = [16, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 300, 400, 500, 501, 512, 513, 1000, 1001, 1024, 1025]
MANY_KINDS = {
    "list": ("[{c} for i in range({n})]", "{a} + [{o}] + {b}", "[]"), "tuple": ("tuple({c} for i in range({n}))", "{a} + ({o},) + {b}", "()"),
    "set": ("set({k} for i in range({n}))", "{a} | {{{o}}} | {b}", "set()"), "frozenset": ("frozenset({k} for i in range({n}))", "{a} | {{{o}}} | {b}", "frozenset()"),
    "series": ("[{c} for i in range({n})]", "pd.Series({a} + [{o}] + {b}, dtype=object)", "[]"), "iter": ("[{c} for i in range({n})]", "iter({a} + [{o}] + {b})", "[]"),
    "frame": ("[{c} for i in range({n})]", "pd.DataFrame({{'c': pd.Series({a} + [{o}] + {b}, dtype=object)}})", "[]"),
    "dict": ("{{f'k{{i}}': {c} for i in range({n})}}", "{{**{a}, 'odd': {o}, **{{'z' + k: v for k, v in {b}.items()}}}}", "{{}}"),
    "intdict": ("{{i: {c} for i in range({n})}}", "{{**{a}, 's': {o}, **{{-1 - k: v for k, v in {b}.items()}}}}", "{{}}"),
    "mproxy": ("{{i: {c} for i in range({n})}}", "MappingProxyType({{**{a}, 's': {o}, **{{-1 - k: v for k, v in {b}.items()}}}})", "{{}}"),
}


def many(lengths=None, kinds=None):
    """Long containers of alike children with one odd child at the start, in the middle or at the end."""
    for n in lengths or LENGTHS:
        for kind in kinds or MANY_KINDS:
            row_, joined, none = MANY_KINDS[kind]
            for c, k, o in (("1", "i", "'s'"), ("[i]", "(i,)", "('s', 1)"), ("{{'a': i}}".format(), "(i,)", "None")):
                if kind == "series" and c != "1":
                    continue
                for before, after in ((n, 0), (n // 2, n - n // 2), (0, n)):
                    make = lambda m: row_.format(c=c, k=k, n=m) if m else none.replace("{{}}", "{}")  # noqa: B023,E731
                    yield joined.format(a=make(before), b=make(after), o=o)


LONG = [1, 2, 10, 30, 60, 79, 80, 88, 89, 90, 91, 100, 119, 120, 121, 200]


def long_names():
    """Keys of every relevant length, spelled as identifiers or not, and so many of them."""
    for size in LONG:
        for c in ("a", "a b", "é"):
            key = repr((c * size)[:size])
            for v in KEY_VALUES:
                yield f"{{{key}: {v}}}"
                yield f"{{{key}: {v}, 'b': 1}}"
    for size in range(2, 40, 3):
        yield "{" + ", ".join(f"'key_{n}': {n}" for n in range(size)) + "}"
        yield "{" + ", ".join(f"'key {n}': [[{n}]]" for n in range(size)) + "}"


DEFAULT = {}
LIST = [{}, {"list_strategy": "Sequence"}]
ONE_FACTOR = [
    {},
    {"list_strategy": "Sequence"},
    {"tuple_size_strategy": "any size"},
    {"dict_strategy": "Mapping"},
    {"dict_strategy": "dict"},
    {"min_height_to_define_type_alias": 0},
    {"min_height_to_define_type_alias": 3},
    {"merge_different_typed_dicts_if_similarity_above": 1},
    {"merge_different_typed_dicts_if_similarity_above": 100},
    {"typed_dict_read_only_values": True},
    {"check_max_n_elements_within_container": None},
    {"check_max_n_elements_within_container": 1},
    {"pandas_strategies": "Type hint only for autocomplete"},
    {"pandas_strategies": "Do not type hint columns"},
]


def factorial(**factors):
    names = list(factors)
    return [dict(zip(names, vs)) for vs in itertools.product(*factors.values())]


FULL = factorial(
    list_strategy=["list", "Sequence"],
    tuple_size_strategy=["fixed", "any size"],
    dict_strategy=["TypedDict", "Mapping", "dict"],
    min_height_to_define_type_alias=[0, 1, 2],
    merge_different_typed_dicts_if_similarity_above=[1, 50, 100],
    typed_dict_read_only_values=[False, True],
    check_max_n_elements_within_container=[500, 1],
)


# chains of containers
CHAIN = ["list", "tuple", "dict", "intdict", "mproxy", "iter", "frozenset"]
PAYLOADS = ["", "1, 's'", "1, 1"]


def link(kind, inner):
    if kind == "intdict":
        return "{1: " + inner + "}"
    return WRAP[kind](["'a': " + inner if kind in MAPS else inner])


def chains(depth, payloads=PAYLOADS, kinds=CHAIN):
    """Every sequence of container kinds of this length around every payload."""
    for p in payloads:
        for inner in ["[" + p + "]", "(" + p + ("," if p else "") + ")"]:
            for ks in itertools.product(kinds, repeat=depth - 1):
                e = inner
                for k in ks:
                    if k == "frozenset" and not hashable_text(e):
                        break
                    e = link(k, e)
                else:
                    yield e


def hashable_text(e):
    return "[" not in e.replace("frozenset([", "") and "{" not in e and "iter" not in e


def pairs_of(factors):
    """Every configuration that differs from the default in at most two options."""
    out = [{}]
    singles = [(k, v) for k, vs in factors.items() for v in vs]
    out += [{k: v} for k, v in singles]
    out += [{a: x, b: y} for (a, x), (b, y) in itertools.combinations(singles, 2) if a != b]
    return out


OPTIONS = dict(
    list_strategy=["Sequence"],
    tuple_size_strategy=["any size"],
    dict_strategy=["Mapping", "dict"],
    min_height_to_define_type_alias=[0, 2, 3, 4],
    merge_different_typed_dicts_if_similarity_above=[1, 100],
    typed_dict_read_only_values=[True],
    check_max_n_elements_within_container=[1, 2, None],
    pandas_strategies=["Type hint only for autocomplete", "Do not type hint columns"],
)
PAIRS = pairs_of(OPTIONS)
CHAIN_FULL = factorial(
    list_strategy=["list", "Sequence"],
    tuple_size_strategy=["fixed", "any size"],
    dict_strategy=["TypedDict", "Mapping", "dict"],
    min_height_to_define_type_alias=[0, 1, 2, 3],
    typed_dict_read_only_values=[False, True],
    check_max_n_elements_within_container=[500, 1],
)
NAMES = ["AnyThing", "Any", "Union", "Optional2", "ListOf", "List", "Dict", "TypedDict", "Mapping", "TypeAlias", "a", "A1", "Ünion", "_x", "x_", "Int", "XA", "Tuple", "Frozen", "Sequence"]
