"""C08: the types generated from a YAML file against those generated from the
data its loader reads, for every document of a line grammar."""
import itertools
import os
import tempfile
from pathlib import Path

import yaml

from checks import c09
from mc import gen, oracle, runner, termcheck

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the loader reads the file it is given, is deterministic and yields acyclic data",
    "types are compared with named declarations resolved (C04 decides how they are spread)",
]
Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
SETTINGS = [None, "side", "above", "below", ["side", "above"], ["above", "side"], ["below", "side"], ["side", "below"], []]
CONFIGS = [
    {},
    {"dict_strategy": "Mapping", "check_max_n_elements_within_container": 1},
    {"merge_different_typed_dicts_if_similarity_above": 1, "typed_dict_read_only_values": True, "min_height_to_define_type_alias": 0},
    {"dict_strategy": "dict", "key_used_as_doc": "a", "tuple_size_strategy": "any size"},
    {"merge_different_typed_dicts_if_similarity_above": 100, "key_used_as_doc": "a"},
]
# Lines that interact: every sequence of them is a document (if YAML accepts it)
LINES = [
    "a: 1", "a: x  # side", "b: 'x # y'  # s", "a:", "b:  # side", "  c: 1", "  c: x # s", "  d:", "    e: 1.5 # deep",
    "# c", "  # c", "    # c", "", "- 1", "- a", "- b: 1 # s", "- b:", "  - 2", "  - c: 1", "  - c: x # s", "-", "- # c",
    "a: |", "b: > # s", "  text: # z", "  'c': 1 # s", '"q#": 1 # s', "'k: l': 2 # s", "g: {h: 1, i: [1, 2]} # s",
    "g: [{h: 1}, {h: x}]", "- {h: 1} # s", "- - b: 1 # s", "? a", ": b # s", "---", "...", "#", "# it's", '# say """hi"""', "# a: 1",
    "a: 1 # c: d", "a-b: 1 # s", "1: x # s", "n1: ~ # s", "\tc: 1", "# tab\tcomment", "- a: 1 # it's", "a: it's # s", 'b: "x \\" # y" # s',
    "a: &x {c: 1} # s", "b: *x # s", "- &y # s", "<<: *x # s", "é: ñ # ü", "!!str 1: x # s", "a: !!set {c, d} # s", "b: 2020-01-01 # s",
    "a: [1, # s", "  2] # s", "g: {c: 1, # s", "  d: 2} # s", "a: 'x # y", "  # z' # s", "___docstring_hidden_key_a: x # s", "a: -1 # s", "  -b: 1 # s",
]
CORE = [
    "a: 1", "b: x  # side", "a:", "  c: 1 # s", "  d:", "# c", "  # c", "", "- 1", "- b: 1 # s", "  - c: x # s", "a: |", "  text: # z",
    "g: {h: 1} # s", "- a: 'x # y' # it's", "  'c': 2", "- - b: 1 # s", "b: > # s", "- # c", "    e: 1 # s",
]
# what decides about dictionaries next to each other must not count comments
GROUP_CONFIGS = [
    *({"merge_different_typed_dicts_if_similarity_above": t} for t in (1, 33, 34, 50, 51, 66, 67, 75, 76)),
    {"check_max_n_elements_within_container": 1, "dict_strategy": "dict"}, {"check_max_n_elements_within_container": 2, "dict_strategy": "Mapping"}, {"check_max_n_elements_within_container": 2},
    {"merge_different_typed_dicts_if_similarity_above": 50, "key_used_as_doc": "a"}, {"merge_different_typed_dicts_if_similarity_above": 67, "typed_dict_read_only_values": True, "min_height_to_define_type_alias": 0},
]


def groups(tier):
    """Dictionaries next to each other in a list or a mapping, with every
    single comment, those of one dictionary, and all."""
    sets = [k for n in (1, 2, 3) for k in itertools.combinations("abc", n)]
    for size in (2, 3) if tier == "thorough" else (2,):
        for ds in itertools.product(sets, repeat=size):
            places = [(i, k) for i, d in enumerate(ds) for k in d]
            masks = [{p} for p in places] + [{p for p in places if p[0] == i} for i in range(size)] + [set(places)]
            for odd in (None, *((i, d[0]) for i, d in enumerate(ds))):
                for mask in masks:
                    for kind in ("list", "mapping"):
                        lines = []
                        for i, d in enumerate(ds):
                            lines += [f"{'xyz'[i]}:"] if kind == "mapping" else []
                            for j, k in enumerate(d):
                                lead = "- " if kind == "list" and j == 0 else "  "
                                lines.append(f"{lead}{k}: {'s' if (i, k) == odd else 1}{' # c' if (i, k) in mask else ''}")
                        yield "\n".join(lines) + "\n"


KEYS = [
    "a", "a b", "'a'", '"a"', "'a b'", "'a#b'", '"a: b"', "a#b", "a:b", "1", "1.5", "true", "null", "~", "-a", "a-", "a-b", "- a", "_a", "a.b", "é", "'it''s'",
    '"x\\"y"', "[1, 2]", "? a\n", "!!str a", "&n a", "class", "''", "___docstring_hidden_key_b", "a'b", "<<",
]
VALS = [
    "1", "x", "'x'", '"x"', "'x # y'", '"x # y"', "x#y", "x: y", "'x: y'", "|\n{i}  t # u\n{i}  # v: w", ">\n{i}  t\n", "", "\n{i}  d: 1 # in", "\n{i}- 1 # in\n{i}- d: 2 # in",
    "\n{i}  - 1 # in", "{{d: 1, e: [1, 'x']}}", "[1, # in\n{i}  2]", "it's", "-1", "- 1", "~", "2020-01-01", "'x\n{i}  # y'", "x\n{i}  y", '"a\\\n{i}  b"', "!!set {{a, b}}", "&m [1]", "0x1F", "!!binary aGk=",
    "*zz", "{{}}", "[]", "%x", "@x",
]
COMMENTS = ["c", "It's", '"""', "'''", "a: 1", "- a", "# c", "c\\", "é", "\\x", "{a", "", "c.", "| c", "\t c", "'", '"', ": c", "%c", "!c", "x" * 200]


def contexts(key, val, com):
    """The same key and value at several places of a document."""
    v = lambda i: val.format(i=i)  # noqa: E731
    k = lambda i: key.replace("\n", "\n" + i)  # noqa: E731
    side = f" # {com}" if com is not None and "\n" not in val else ""
    first = lambda i: (v(i) + side)  # noqa: E731
    yield f"{key}: {first('')}\n"
    yield f"# {com}\n{key}: {v('')}\n# {com}\nz: 1\n"
    yield f"z: 1  # {com}\n{key}: {first('')}\n"
    yield f"z:\n  # {com}\n  {k('  ')}: {first('  ')}\n  # {com}\n"
    yield f"- y: 1\n- {k('  ')}: {first('  ')}\n  # {com}\n  z: 1 # {com}\n"
    yield f"z:\n- # {com}\n  {k('  ')}: {first('  ')}\n- {{z: 1}}\n"


RAW = [
    ("latin-1", "a: ñ # é\nb: 1 # s\n".encode("latin-1")), ("bom", "\ufeffa: 1 # s\nb: x # t\n".encode("utf-8")), ("utf-16", "a: 1 # s\nb: x # t\n".encode("utf-16")),
    ("crlf", b"a: 1 # s\r\nb: x # t\r\n"), ("cr", b"a: 1 # s\rb: x # t\r"), ("nel", "a: 1 # s\x85b: x # t\n".encode()), ("ls", "a: 'x\u2028 # s'\nb: x # t\n".encode()),
    ("ff", b"a: 1 # s\x0cb: 2\n"), ("no end", b"a: 1 # s\nb: x # t"), ("empty", b""), ("only comment", b"# c\n"), ("spaces", b"a: 1 # s   \n   \nb: x\n"),
    ("nbsp", "a: 1 # s\nb: x\u00a0# t\n".encode()), ("tabs", b"a:\t1\t# s\nb:\tx\t# t\n"), ("vt", b"a: 'x\x0b # s'\n"), ("scalar", b"x # s\n"), ("list", b"- 1 # s\n- a: 1 # t\n"),
]


def load_file(path):
    with open(path, "rb") as f:
        return yaml.load(f, Loader)


def load_any(path):
    raw = Path(path).read_bytes()
    for e in ("utf-8", "latin-1"):
        try:
            return yaml.load(raw if e == "utf-8" else raw.decode(e), Loader)
        except (UnicodeDecodeError, yaml.YAMLError):
            continue
    return None


def load_frozen(path):
    """Tuples and mapping proxies instead of lists and dictionaries."""
    from types import MappingProxyType

    def go(v):
        if isinstance(v, dict):
            return MappingProxyType({k: go(x) for k, x in v.items()})
        return tuple(map(go, v)) if isinstance(v, list) else v

    return go(load_file(path))


def load_text(path):
    return Path(path).read_bytes().decode("latin-1")


def load_named(path):
    """Whatever the loader adds itself stays."""
    return {"name": 1, "content": load_file(path), "___docstring_hidden_key_name": "mine"}


LOADERS = {"yaml": load_file, "any": load_any, "frozen": load_frozen, "text": load_text, "named": load_named}


def folder():
    if folder.path is None:
        folder.path = tempfile.mkdtemp(prefix="c08-")
    return folder.path


folder.path = None


def accepted(text):
    if isinstance(text, str):
        text = text.encode()
    try:
        yaml.load(text, Loader)
    except (yaml.YAMLError, ValueError, TypeError, RecursionError):
        return False
    return True


def meaning(text):
    m = oracle.module(text)
    return oracle.canon(m.ir("X"))


def judge(case, rep):
    config = case["config"]
    path = os.path.join(folder(), "doc.yaml")
    raw = case["doc"].encode() if "doc" in case else bytes(case["raw"])
    with open(path, "wb") as f:
        f.write(raw)
    loader = LOADERS[case.get("loader", "yaml")]
    data = loader(path)
    plain = gen.text_of(data, config)
    expected = meaning(plain)
    rep.seen("outcomes", expected)
    h = gen.LazyTypeHint(gen.strategies(config))
    for setting in case["settings"]:
        rep.count("files")
        kind = (lambda x: Path(x)) if case.get("as_path") else str
        text = h.from_yaml_file(loader, kind(path), class_name="X", comments_are=setting).to_string()
        if "docstring_hidden_key" in text and b"docstring_hidden_key" not in raw:
            rep.violation({**case, "settings": [setting]}, "helper key", text)
        if text == plain:
            continue
        rep.count("documented")
        got = meaning(text)
        if got != expected:
            rep.violation({**case, "settings": [setting]}, "types", f"data: {expected}\nfile: {got}")
    rep.seen("states", (raw, case.get("loader")))


def documents(tier):
    """(label, function yielding cases without settings)."""

    def lines(alphabet, n):
        for k in range(n + 1):
            for ls in itertools.product(alphabet, repeat=k):
                # Nothing is gained by the order of what YAML rejects anyway
                yield "\n".join(ls) + "\n"

    def shapes():
        comments = COMMENTS[:13] if tier == "thorough" else COMMENTS[:1]
        for key in KEYS:
            for val in VALS:
                for com in comments:
                    yield from contexts(key, val, com)
        for com in COMMENTS:
            for val in VALS:
                yield from contexts("a", val, com)
            for key in KEYS:
                yield from contexts(key, "1", com)

    yield "lines", (lambda: lines(LINES, 2 if tier == "quick" else 3))
    yield "core lines", (lambda: lines(CORE, 3 if tier == "quick" else 4))
    yield "shapes", shapes
    yield "large", (lambda: (c09.render(lines)[0] for lines in c09.large(tier)))
    yield "groups", (lambda: groups(tier))


def run(tier):
    def work(_, i, n, rep):
        seen = set()
        try:
            for label, docs in documents(tier):
                for doc in itertools.islice(docs(), i, None, n):
                    rep.count("documents")
                    if doc in seen or not accepted(doc):
                        continue
                    seen.add(doc)
                    rep.count("accepted " + label)
                    for c in GROUP_CONFIGS if label == "groups" else CONFIGS if label != "shapes" or tier == "thorough" else CONFIGS[:3:2]:
                        settings = ["side"] if label == "groups" else SETTINGS if c == {} else ["side", ["above", "side"], "below"]
                        if label == "large" and c not in CONFIGS[:3]:
                            continue
                        termcheck.guarded(judge, {"doc": doc, "settings": settings, "config": c}, rep)
            if i == 0:
                for name, raw in RAW:
                    for loader in LOADERS:
                        for as_path in (False, True):
                            for c in CONFIGS:
                                if loader in ("yaml", "frozen", "named") and not accepted(raw):
                                    continue
                                rep.count("accepted raw")
                                termcheck.guarded(judge, {"raw": list(raw), "name": name, "loader": loader, "as_path": as_path, "settings": SETTINGS, "config": c}, rep)
            for doc in itertools.islice(itertools.chain.from_iterable(contexts(k, v, "c") for k in KEYS[:12] for v in VALS[:18]), i, None, n):
                if accepted(doc):
                    for loader in ("frozen", "text", "named"):
                        rep.count("accepted loaders")
                        termcheck.guarded(judge, {"doc": doc, "loader": loader, "as_path": True, "settings": SETTINGS, "config": {}}, rep)
        finally:
            if folder.path:
                for f in os.listdir(folder.path):
                    os.remove(os.path.join(folder.path, f))
                os.rmdir(folder.path)
                folder.path = None

    rep = runner.parallel(work, None)
    c = rep.counts
    return rep, {
        "states": len(rep.sets.get("states", ())),
        "transitions": c.get("files", 0),
        "traces_validated_against_impl": c.get("files", 0),
        "documents_enumerated": c.get("documents", 0),
        "accepted": {k[9:]: v for k, v in c.items() if k.startswith("accepted ")},
        "files_whose_text_differs_from_that_of_the_data": c.get("documented", 0),
        "rule": "every sequence of lines up to the stated length, documents of up to hundreds of lines and dozens of levels; every key x value x comment x place; each with every comment setting",
        "exhaustive": True,
    }


def replay(case, rep):
    termcheck.guarded(judge, case, rep)
