"""C19: every documentation text up to a length, and every length around the
wrapping width, in every form of TypedDict."""
import ast
import itertools

from mc import gen, oracle, runner, termcheck, world

LEVEL = "model_checking"
ASSUMPTIONS = ["words are what str.split() yields; a final full stop may be added", "where dictionaries with different texts are merged or equal, only the last words are not decided here (C09 does)"]
# (value, [(fields, D / text / None), ...], configuration): K is the documentation key, D the text
FORMS = {
    "class": ("{K: D, 'a': 1}", [("Ka", "D")], {}),
    "only": ("{K: D}", [("K", "D")], {}),
    "last": ("{'a': 1, 'b': [1], K: D}", [("Kab", "D")], {}),
    "functional": ("{K: D, 'a b': 1}", [(("K", "a b"), "D")], {}),
    "functional last": ("{'a b': [1, 's'], 'class': 1, K: D}", [(("K", "a b", "class"), "D")], {}),
    "nested": ("{'o': {K: D, 'a': 1}}", [("o", None), ("Ka", "D")], {}),
    "beside": ("[{K: D, 'a': 1}, {'b': 1.5}]", [("Ka", "D"), ("b", None)], {}),
    "beside, after": ("[{'b': 1.5}, {K: D, 'a': 1}]", [("Ka", "D"), ("b", None)], {}),
    "both levels": ("{K: D, 'o': {K: 'Inner words', 'x': 1}}", [("Ko", "D"), ("Kx", "Inner words")], {}),
    "below": ("{K: 'Outer words', 'o': {K: D, 'x': 1}, 'p': {'y': 1}}", [("Kop", "Outer words"), ("Kx", "D"), ("y", None)], {}),
    "deep": ("{'o': [{'p q': ({K: D},)}]}", [("o", None), (("p q",), None), ("K", "D")], {}),
    "deep functional": ("{'o': [{'p': ({K: D, 'q r': {'s': 1}},)}]}", [("o", None), ("p", None), (("K", "q r"), "D"), ("s", None)], {}),
    "merged": ("[{K: D, 'a': 1}, {K: D, 'a': 1, 'b': 1}]", [("Kab", "D")], {"merge_different_typed_dicts_if_similarity_above": 1}),
    "merged, one documented": ("[{'a': 1}, {K: D, 'a': 1, 'b': 1}, {'a': 2}]", [("Kab", "D")], {"merge_different_typed_dicts_if_similarity_above": 1}),
    "equal": ("[{K: D, 'a': 1}, {K: D, 'a': 2}, {'a': 1}]", [("Ka", "D"), ("a", None)], {"merge_different_typed_dicts_if_similarity_above": 100}),
    "read-only": ("{K: D, 'a': [1]}", [("Ka", "D")], {"typed_dict_read_only_values": True, "min_height_to_define_type_alias": 0}),
    "another key": ("{'other': D, 'a': {K: 1}}", [(("other", "a"), None), ("K", None)], {}),
    "not a string": ("{K: [D], 'a': {K: {'z': D}}, 'b': {K: None}}", [("Kab", None), ("K", None), ("K", None), ("z", None)], {}),
    "not string keys": ("{K: D, 1: {'a': D}}", [("a", None)], {}),
    "proxy": ("[MappingProxyType({K: D, 'a': 1}), {'a': 1}]", [("a", None)], {}),
    "dict strategy": ("{K: D, 'a': 1}", [], {"dict_strategy": "dict"}),
    "Mapping strategy": ("{K: D, 'a': {K: D}}", [], {"dict_strategy": "Mapping"}),
    "limit": ("{'a': 1, K: D}", [("Ka", "D")], {"check_max_n_elements_within_container": 1}),
}
# the same with many fields, levels or siblings
LARGE = {}
for n in (2, 3, 5, 8, 9, 12, 16, 17, 24, 33, 64):
    some = [f"k{j}" for j in range(n)]
    rest = ", ".join(f"'{k}': {v}" for k, v in zip(some, ["1", "'s'", "[1]", "(1, 's')"] * n))
    LARGE[f"{n} fields"] = ("{K: D, " + rest + "}", [(("K", *some), "D")], {})
    LARGE[f"{n} fields, last"] = ("{" + rest + ", K: D}", [(("K", *some), "D")], {})
    LARGE[f"{n} fields, functional"] = ("{'a b': 1, " + rest + ", K: D}", [(("K", "a b", *some), "D")], {})
    LARGE[f"{n} fields, nested"] = ("[{'o': {K: D, " + rest + "}}]", [("o", None), (("K", *some), "D")], {})
    LARGE[f"{n} siblings"] = ("{" + ", ".join(f"'s{j}': {{K: {'D' if j % 2 else repr(f'Text {j}')}, 'f{j}': 1}}" for j in range(n)) + "}", [(tuple(f"s{j}" for j in range(n)), None)] + [(("K", f"f{j}"), "D" if j % 2 else f"Text {j}") for j in range(n)], {})
    if n < 20:
        LARGE[f"{n} levels"] = ("{K: 'Outer', 'o0': " + "".join(f"{{'o{j}': " for j in range(1, n)) + "{K: D, 'a': 1}" + "}" * n, [(("K", "o0"), "Outer")] + [((f"o{j}",), None) for j in range(1, n)] + [("Ka", "D")], {})
        LARGE[f"{n} merged"] = ("[" + ", ".join("{K: D, " + ", ".join(f"'k{i}': 1" for i in range(n) if i != j) + "}" for j in range(n)) + "]", [(("K", *some), "D")], {"merge_different_typed_dicts_if_similarity_above": 1})
KEYS = ["doc", "a doc", "Doc", "é", "__doc", "doc_"]
NOT_FUNCTIONAL = ["doc", "Doc", "é", "doc_"]


def fields_of(spec, key):
    return tuple(sorted(key if c == "K" else c for c in spec))


def found(tree):
    """(fields, documentation) of every TypedDict of the module, and stray strings."""
    out, taken = [], set()

    def doc(body, i):
        if i < len(body) and isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant) and isinstance(body[i].value.value, str):
            taken.add(id(body[i]))
            return body[i].value.value
        return None

    for i, node in enumerate(tree.body):
        if isinstance(node, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == "TypedDict" for b in node.bases):
            out.append((tuple(sorted(n.target.id for n in node.body if isinstance(n, ast.AnnAssign))), doc(node.body, 0)))
        elif isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and getattr(node.value.func, "id", "") == "TypedDict":
            out.append((tuple(sorted(k.value for k in node.value.args[1].keys)), doc(tree.body, i + 1)))
    stray = [n.value.value for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and id(n) not in taken and n.value.value is not ...]
    return out, stray


def carries(text, doc):
    """Whether doc is text as far as its words go (a full stop may close it).
    Python takes no lone surrogate in a docstring: these are spelled out."""
    text = text.encode("utf-8", "backslashreplace").decode("utf-8")
    want, got = text.split(), doc.split()
    if got == want:
        return True
    return not text.endswith(".") and (got == [*want, "."] or bool(want) and got == [*want[:-1], want[-1] + "."])


def order(item):
    return item[0], item[1] or ""


def judge(case, rep):
    template, declared, config = {**FORMS, **LARGE}[case["form"]]
    key, text = case["key"], case["doc"]
    value = lambda d: eval(template, {**vars(world), "K": key, "D": d})  # noqa: S307
    config = {**config, "key_used_as_doc": key}
    module = gen.text_of(value(text), config)
    rep.seen("outcomes", module)
    mod = oracle.module(module)
    ir = mod.ir("X")
    plain = case["form"], key
    if plain not in _plain:
        _plain[plain] = oracle.module(gen.text_of(value("Word"), config)).ir("X")
    if ir != _plain[plain]:
        rep.violation(case, "types", f"the text changes the type: {oracle.canon(ir)} instead of {oracle.canon(_plain[plain])}")
    got, stray = found(ast.parse(module))
    want = sorted(((fields_of(spec, key), {"D": text}.get(d, d)) for spec, d in declared), key=order)
    if sorted(f for f, _ in got) != sorted(f for f, _ in want):
        rep.violation(case, "declarations", f"expected {[f for f, _ in want]}, found {[f for f, _ in got]}")
        return
    if stray:
        rep.violation(case, "stray", f"strings that document nothing: {stray}")
    left = list(got)
    for f, d in want:
        same = next((g for g in left if g[0] == f and (g[1] is None if d is None else g[1] is not None and carries(d, g[1]))), None)
        if same is None:
            rep.violation(case, "text", f"TypedDict of {f}: expected {d!r}, found {[g[1] for g in left if g[0] == f]!r}")
            return
        left.remove(same)


_plain = {}

CHARS = ["w", '"', "'", "\\", "\n", " ", ".", "#", "{", "}", "\t", "é", "\r", "%", "N", "x", "u", "\x00", "\u2028", "\x0c", "\ud800", "0", "{0}", "😀", "\x85"]
CORE = ["w", '"', "\\", "\n", " ", "."]


def strings(chars, n):
    for k in range(n + 1):
        for cs in itertools.product(chars, repeat=k):
            yield "".join(cs)


def filler(n, step):
    """Exactly n characters of words of `step` letters."""
    return ("".join(" " if i % (step + 1) == step else chr(97 + i // (step + 1) % 26) for i in range(n)))


def cases(tier):
    q = tier == "quick"
    # every text up to a length
    for s in strings(CHARS, 2 if q else 3):
        for form in FORMS:
            yield s, form, "doc"
    for s in strings(CHARS, 3):
        yield s, "class", "doc"
        yield s, "functional", "doc"
    for s in strings(CORE, 5 if q else 7):
        yield s, "class", "doc"
        yield s, "functional", "doc"
    for s in strings(['"', "\\", "w", "\n"], 6 if q else 8):
        yield s, "nested", "doc"
    # around the width: every length, every word length, special characters at every place
    for n in range(0, 320 if q else 700):
        for step in (1, 2, 5, 13, 40, 1000):
            t = filler(n, step)
            for form in ("class", "functional", "deep"):
                yield t, form, "doc"
                yield t + ".", form, "doc"
    for at in range(70, 100) if q else range(0, 200):
        for s in strings(CORE + ["{"], 2 if q else 3):
            for step in (5, 1000):
                for form in ("class", "functional") if q or len(s) < 3 else ("class",):
                    yield filler(at, step) + s, form, "doc"
                    yield filler(at, step) + s + filler(30, step), form, "doc"
                    yield s + filler(at, step), form, "doc"
    for n in (85, 88, 90, 91, 95, 180, 400):
        for step in (4, 1000):
            for form in FORMS:
                yield filler(n, step), form, "doc"
                yield "First.\n" + filler(n, step) + "\n\nLast", form, "doc"
                yield filler(n, step) + "\n" + filler(n, step), form, "doc"
    # lines
    for ls in itertools.product(["", "a", "  b c", 'd"', "e\\", '"""', "w" * 95, "x " * 50, "class Y: ...", "# no", "    z: int"], repeat=3 if q else 4):
        yield "\n".join(ls), "class", "doc"
        yield "\n".join(ls), "functional", "doc"
        if not q:
            yield "\n".join(ls), "deep", "doc"
    for form in LARGE:
        for s in ["", "Words", "Two words.", 'q"', "l\nm", "One.\n\nTwo.", "One\n\nTwo\n\n\nThree", "\n\nLate", "a. b. C", "w " * 80, "w " * 3000, "line\n" * 300, "class Y: ...\n\n    z: int", "W" * 2000, "\\", '"""']:
            yield s, form, "doc"
    # documentation keys
    for key in KEYS:
        for s in ["Words", "Two words.", 'q"', "l\nm", "w " * 80, ""]:
            for form in FORMS:
                yield s, form, key


def run(tier):
    def work(_, i, n, rep):
        for s, form, key in itertools.islice(cases(tier), i, None, n):
            case = {"doc": s, "form": form, "key": key}
            rep.count("executions")
            rep.seen("states", s)
            rep.seen("transitions", (s, form, key))
            if rep.counts["executions"] % 4999 == 1:
                rep.sample({**case, "doc": repr(s)})
            termcheck.guarded(judge, case, rep)

    rep = runner.parallel(work, None)
    return rep, termcheck.coverage(rep, "every text up to the length of the tier over an alphabet of words, quotes, backslashes, breaks and other special characters, every length around and beyond the wrapping width with several word lengths and special characters at every place, every sequence of special lines, in every listed form of TypedDict, and every listed documentation key; a state is a text")


def replay(case, rep):
    termcheck.guarded(judge, case, rep)
