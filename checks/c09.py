"""C09: which key each comment of a YAML file documents, for every block-style
document of a line grammar, against a reference attribution that knows the
structure the document was made from."""
import ast
import itertools
import os
import re
import tempfile

import yaml

from mc import gen, oracle, runner, termcheck

LEVEL = "model_checking"
ASSUMPTIONS = [
    "block-style YAML indented with spaces; every key is a Python identifier, plain or quoted, written on one line with its value",
    "words are compared ignoring the case of a first letter and, for comments of several lines, full stops",
]
Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
SETTINGS = ["side", "above", "below", ["side", "above"], ["above", "side"], ["below", "side"], ["side", "below"], []]
NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta"]
"""A line is (kind, column, side): kind is key, open, item, itemopen, scalar,
comment, blank or 'raw text' (never a key); column is that of the first
character, side whether it ends in a comment."""


def render(lines, step=2):
    """The text, the keys [(name, line, column)] and the comment of each line."""
    out, keys = [], []
    for i, (kind, col, side) in enumerate(lines):
        pad, name = " " * col, NAMES[i % len(NAMES)] + ("x" * (i // len(NAMES)))
        text = {
            "key": f"{name}: {i}", "open": f"{name}:", "item": f"- {name}: {i}", "itemopen": f"- {name}:", "scalar": f"- {i}",
            "comment": f"# w{i}a w{i}b", "blank": "", "quoted": f"'{name}': 'x # y: {i}'", "dquoted": f'"{name}": "x # y: {i}"', "dash2": f"- - {name}: {i}",
            "private": f"_{name}: x", "text": f"{name}: a - b", "colon": f"{name}: http://x#{i}", "flow": f"{name}: {{p{i}: 1, q{i}: 2}}", "flowlist": f"{name}: [1, 2]",
            "deepitem": f"-   {name}: {i}", "minus": f"{name}: -{i}", "quotes": f"{name}: it's", "hash": f"# # w{i}a w{i}b", "space": f"{name} : {i}", "name-in-value": f"{name}: {name}", "anchor": f"{name}: &n{i} x",
        }[kind]
        if kind in ("comment", "hash", "blank"):
            side = False
        out.append(pad + text + (f"  # s{i}a s{i}b" if side else ""))
        if kind not in ("comment", "hash", "blank", "scalar"):
            key_col = col + {"item": 2, "itemopen": 2, "deepitem": 4, "dash2": 4}.get(kind, 0)
            keys.append(("_" + name if kind == "private" else name, i, key_col, side))
    return "\n".join(out) + "\n", keys


def expected(lines, keys, setting):
    wanted = [setting] if isinstance(setting, str) else setting

    def block(i, col, step):
        found, j = [], i + step
        while 0 <= j < len(lines) and lines[j][0] in ("comment", "hash") and lines[j][1] == col:
            found.append(j)
            j += step
        return [w for j in sorted(found) for w in (f"w{j}a", f"w{j}b")]

    result = {}
    for name, i, col, side in keys:
        words = []
        for where in wanted:
            if where == "side":
                words += [f"s{i}a", f"s{i}b"] if side else []
            else:
                words += block(i, col, -1 if where == "above" else 1)
        if words:
            result[name] = words
    return result


def documented(text):
    """{field: documentation} over all the TypedDicts of a generated module."""
    found, classes = {}, []
    for node in ast.parse(text).body:
        if isinstance(node, ast.ClassDef):
            if ast.get_docstring(node) is not None:
                classes.append((node.name, ast.get_docstring(node)))
            for a, b in zip(node.body, node.body[1:]):
                if isinstance(a, ast.AnnAssign) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    found.setdefault(a.target.id, []).append(b.value.value)
        elif isinstance(node, ast.Expr):
            classes.append(("", ast.unparse(node)))
    return found, classes


def words(text):
    return [w[0].upper() + w[1:] for w in (re.sub(r"\.+$", "", w) for w in text.split()) if w not in ("", "#")]


def unchanged(text, doc):
    """Whether doc has the words of a comment of one line as they are (but for
    first letters), and a full stop at most that closes one that lacks it."""
    upper = lambda words: [w[0].upper() + w[1:] for w in words]  # noqa: E731
    want, got = upper(text.split()), upper(doc.split())
    return got == want or not text.rstrip().endswith(".") and "".join(got) == "".join(want) + "."


def path_of(raw):
    if path_of.dir is None:
        path_of.dir = tempfile.mkdtemp(prefix="c09-")
    p = os.path.join(path_of.dir, "doc.yaml")
    with open(p, "w", encoding="utf-8") as f:
        f.write(raw)
    return p


path_of.dir = None


def cleanup():
    if path_of.dir:
        for f in os.listdir(path_of.dir):
            os.remove(os.path.join(path_of.dir, f))
        os.rmdir(path_of.dir)
        path_of.dir = None


def load(path):
    with open(path, "rb") as f:
        return yaml.load(f, Loader)


def hints(raw, setting, config):
    return gen.LazyTypeHint(gen.strategies(config)).from_yaml_file(load, path_of(raw), class_name="X", comments_are=setting).to_string()


def judge(case, rep):
    if "text" in case:
        return judge_text(case, rep)
    if "shared" in case:
        return judge_shared(case, rep)
    raw, keys = render(case["lines"])
    rep.seen("states", raw)
    for setting in case["settings"]:
        rep.count("files")
        one = {**case, "settings": [setting]}
        got, classes = documented(hints(raw, setting, case["config"]))
        want = {k: words(" ".join(w)) for k, w in expected(case["lines"], keys, setting).items()}
        rep.seen("outcomes", repr(sorted(want.items())))
        if any(len(d) > 1 for d in got.values()) or classes:
            rep.violation(one, "repeated or misplaced", f"{raw}\n{got} {classes}")
        have = {k: words(d[0]) for k, d in got.items()}
        if have != want:
            rep.violation(one, "attribution", f"{raw}\nexpected {want}\ngot {have}")


# What comments may say: each one as side, above and below
TEXTS = [
    "plain words", "Ends in a stop.", "Two. Sentences here", "it's", 'say "hi"', "'quoted' \"both\"", "a # b", "# #", "key: value", "a: {b: 1}", "- item", "back\\slash \\n \\x41", "tab\tinside", "ünï çödé", "100% sure",
    "TODO(me): x", "x" * 120, "word " * 40, "{braces} {name} {0}", '"', "'", '""', "''", "e.g. this", "...", "|", ">", "!tag", "&a *b", "@x `y`", "%TAG", "a\u00a0b", "Ünder", "ßtart", "ﬁrst", "1. number", "a  b   c", '"""three"""', "'''three'''", "end\\",
    'end"', "end'", "C# is", "#hash", "!", "a:b", "x#y", "url http://a.b/c#d", "---", "key:", "? q", "[x", "x]", "\u2028sep" if False else "plain", "alpha: 2  # nested",
]
MARKS = ["a", ".", " ", "'", '"', "#", "\\", ":", "-", "B"]
TOKENS = ["one", "Two.", "../x", "...", "1.", "e.g.", "-", "it's,", "three:", "a..b", "# c"]


def written(tier):
    """Every text over the marks, and two lines of one or two tokens each."""
    for n in range(1, 4 if tier == "quick" else 6):
        for t in itertools.product(MARKS, repeat=n):
            yield ["w " + "".join(t) + "x"]
            yield ["".join(t)]
    lines = [*TOKENS, *(f"{a} {b}" for a in TOKENS for b in TOKENS)]
    for a in lines if tier == "thorough" else TOKENS:
        for b in lines:
            yield [a, b]
            yield [b, a]


MULTI = [["one", "two"], ["One.", "Two"], ["one", "", "two"], ["", "one"], ["one", ""], ["", ""], ["One", "Two", "three."], ["a: 1", "- b"], ["it's", 'x"'], ["x" * 100, "y"], ["one,", "two;", "three:"], ["one", "", "", "two"], ["1", "2"], ["'a", "b'"]]
PLACES = ["alone", "first", "last", "nested", "item", "item2", "opens"]


def place(where, above, side, below, value="1"):
    """(text, name) of a document where the comments belong to the key `it`."""
    a = lambda i: "".join(f"{i}#{t}\n" for t in above)  # noqa: E731
    b = lambda i: "".join(f"{i}#{t}\n" for t in below)  # noqa: E731
    s = f"  #{side}" if side is not None else ""
    if where == "alone":
        return f"{a('')}it: {value}{s}\n{b('')}"
    if where == "first":
        return f"{a('')}it: {value}{s}\n{b('')}\nzz: 2\n"
    if where == "last":
        return f"zz: 2\n\n{a('')}it: {value}{s}\n{b('')}"
    if where == "nested":
        return f"zz:\n  yy: 2\n\n{a('  ')}  it: {value}{s}\n{b('  ')}xx: 1\n"
    if where == "item":
        return f"zz:\n{a('  ')}- it: {value}{s}\n{b('  ')}\n  yy: 1\n"
    if where == "item2":
        return f"- zz: 1\n\n{a('  ')}  it: {value}{s}\n{b('  ')}- 1\n"
    return f"{a('')}it:{s}\n{b('')}\n  yy: 1\n"


def judge_text(case, rep):
    above, side, below = case["text"]
    raw = place(case["place"], above, side, below, case.get("value", "1"))
    try:
        yaml.load(raw, Loader)
    except (yaml.YAMLError, ValueError):
        rep.count("rejected by YAML")
        return
    rep.seen("states", raw)
    for setting in case["settings"]:
        rep.count("files")
        one = {**case, "settings": [setting]}
        got, classes = documented(hints(raw, setting, case["config"]))
        want = []
        for w in [setting] if isinstance(setting, str) else setting:
            want += words("\n".join({"above": above, "below": below, "side": [side or ""]}[w]))
        have = {k: words("\n".join(d)) for k, d in got.items()}
        have = {k: v for k, v in have.items() if v}
        want = {"it": want} if want else {}
        if have != want or classes:
            rep.violation(one, "words", f"{raw}\nexpected {want}\ngot {have} {classes}")
        lines = [x for w in ([setting] if isinstance(setting, str) else setting) for x in {"above": above, "below": below, "side": [side or ""]}[w]]
        if len(lines) == 1 and want and not unchanged(lines[0], "\n".join(got["it"])):
            rep.violation(one, "punctuation", f"{raw}\nexpected {lines[0]}\ngot {got}")


def judge_shared(case, rep):
    """Dictionaries of equal type share one declaration: each documented key
    carries one of the comments written for it, no other key carries any."""
    raw = case["shared"]
    rep.seen("states", raw)
    for setting in case["settings"]:
        rep.count("files")
        got, classes = documented(hints(raw, setting, case["config"]))
        want = {}
        for line in raw.splitlines():
            m = re.match(r"[ -]*(\w+):.*# (\w+)$", line)
            if m and "side" in setting:
                want.setdefault(m.group(1), []).append(words(m.group(2)))
        bad = set(got) ^ set(want) or classes or [k for k in got if any(words(d) not in want[k] for d in got[k])]
        if bad:
            rep.violation({**case, "settings": [setting]}, "shared", f"{raw}\nexpected {want}\ngot {got}")


def shared_documents():
    """Two or three equal dictionaries, every choice of commented lines."""
    shapes = [
        "a:\n  x: 1{}\n  y: 1{}\nb:\n  x: 2{}\n  y: 3{}\n",
        "- x: 1{}\n  y: 1{}\n- x: 2{}\n  y: 2{}\n",
        "- x: 1{}\n- x: 2{}\n- x: 3{}\n",
        "a:\n- x: 1{}\n  y: 1{}\n- x: 2{}\n",
        "a:\n  p:\n    x: 1{}\nb:\n  p:\n    x: 1{}\n",
        "- p:\n    x: 1{}\n- p:\n    x: 1{}\n  q: 2{}\n",
        "- - x: 1{}\n- - x: 1{}\n",
        "a:\n- x: 1{}\nb:\n- x: 1{}\n",
        "a:\n- p:\n  - x: 1{}\nb:\n- p:\n  - x: 1{}\n",
        "- x: 1{}\n- y: 1{}\n- x: 1{}\n  y: 2{}\n",
        "- p:{}\n    x: 1{}\n- p:{}\n    x: 1{}\n",
        "a:\n  x:{}\n  - 1\nb:\n  x:{}\n  - 1\nc:\n  x:{}\n  - 1\n",
    ]
    for shape in shapes:
        n = shape.count("{}")
        for chosen in itertools.product((False, True), repeat=n):
            yield shape.format(*(f"  # c{i}" if c else "" for i, c in enumerate(chosen)))


COLUMNS = (0, 2, 4)
KINDS = [(k, c, s) for k in ("key", "open", "item", "itemopen") for c in COLUMNS for s in (False, True)] + [("scalar", c, True) for c in (0, 2)]
ALPHABET = KINDS + [("comment", c, False) for c in (0, 1, 2, 4)] + [("blank", 0, False)]
SMALL = [x for x in ALPHABET if x[1] < 4 or x[0] == "comment"]
EXTRA = [
    ("open", 0, False), ("key", 2, True), ("comment", 0, False), ("comment", 2, False), ("hash", 0, False), ("quoted", 0, True), ("dquoted", 0, True), ("quoted", 2, True), ("dquoted", 2, False), ("dash2", 0, True), ("private", 0, True), ("private", 2, True),
    ("text", 0, True), ("colon", 0, True), ("flow", 0, True), ("flowlist", 2, True), ("deepitem", 0, True), ("minus", 0, True), ("quotes", 0, True), ("space", 0, True), ("item", 0, True), ("text", 2, True), ("name-in-value", 0, False), ("anchor", 0, True), ("comment", 4, False), ("key", 4, False),
]
ODD = [("open", 0, True), ("open", 0, False), ("open", 3, True), ("key", 3, True), ("key", 7, True), ("comment", 0, False), ("comment", 3, False), ("comment", 7, False), ("hash", 1, False), ("item", 0, True), ("itemopen", 1, True), ("item", 3, True), ("key", 5, True), ("comment", 5, False)]


def ok(lines):
    try:
        data = yaml.load(render(lines)[0], Loader)
    except yaml.YAMLError:
        return False
    return data is None or (isinstance(data, (dict, list)) and not broken(data))


def broken(v):
    """Lines glued to a scalar are no keys."""
    if isinstance(v, dict):
        return any(broken(x) for x in v.values())
    if isinstance(v, list):
        return any(map(broken, v))
    return isinstance(v, str) and ("\n" in v or ": " in v and not v.startswith("x # y") or "- " in v and v != "a - b")


def grow(alphabet, depth, lines=()):
    """All accepted documents, depth first (each prefix of one is one)."""
    if lines:
        if not ok(lines):
            return
        yield lines
    if len(lines) < depth:
        for x in alphabet:
            yield from grow(alphabet, depth, (*lines, x))


def large(tier):
    """Many keys, levels, comments and blank lines, wide indentation."""
    sizes = [*range(5, 26), 31, 32, 33, 40, 50, 64] if tier == "quick" else range(5, 101)
    for n in sizes:
        flat = [("key", 0, True)] * n
        yield flat
        for period in (2, 3, 7, n):  # only some commented
            yield [("key", 0, i % period == period - 1) for i in range(n)]
            yield [x for i in range(n) for x in ([("comment", 0, False)] if i % period == 0 else []) + [("key", 0, False), ("blank", 0, False)]]
        yield [x for _ in range(n) for x in (("comment", 0, False), ("key", 0, True), ("comment", 0, False), ("blank", 0, False))]
        yield [("item", 0, True)] * n
        yield [x for _ in range(n) for x in (("item", 0, True), ("key", 2, True), ("comment", 2, False))]
        yield [("open", 0, True), *[("key", 2, True)] * n, ("key", 0, True)]
        yield [("open", 0, True), *[("scalar", 2, True)] * n, ("key", 0, True)]
        yield [x for _ in range(n) for x in (("open", 0, True), ("key", 2, True))]
        yield [x for _ in range(n) for x in (("open", 0, False), ("comment", 2, False), ("key", 2, False), ("comment", 2, False))]
        for step in (1, 2, 4) if n < 40 else ():  # levels
            yield [*(("open", k * step, True) for k in range(n)), ("key", n * step, True)]
            yield [*(x for k in range(n) for x in (("open", k * step, False), ("comment", (k + 1) * step, False))), ("key", n * step, True), ("comment", n * step, False)]
            yield [*(("open", k * step, True) for k in range(n)), ("key", n * step, True), *(("key", k * step, True) for k in reversed(range(n)))]
            yield [*(("itemopen", k * (step + 1), True) for k in range(n)), ("key", n * (step + 1), True)]
        for kind in ("comment", "hash"):  # long comments
            yield [(kind, 0, False)] * n + [("key", 0, True)]
            yield [("key", 0, True)] + [(kind, 0, False)] * n
            yield [("open", 0, True)] + [(kind, 2, False)] * n + [("key", 2, True)] + [(kind, 2, False)] * n
        yield [("key", 0, True)] + [("blank", 0, False)] * n + [("comment", 0, False), ("key", 0, True)]
        yield [("open", 0, True), ("comment", n, False), ("key", n, True), ("comment", n, False)]
        yield [("open", 0, True), ("comment", n, False), ("item", n, True), ("key", n + 2, True), ("comment", n + 2, False)]
        yield [("key", 0, True), ("comment", n, False), ("key", 0, True), ("comment", n + 1, False)]
        for kind in ("quoted", "dquoted", "flow", "flowlist", "quotes", "colon", "text", "anchor", "private"):
            if n % 5 == 0:
                yield [(kind, 0, i % 2 == 0) for i in range(n)]
                yield [("key", 0, True)] * n + [(kind, 0, True), ("key", 0, True)]
                yield [("open", 0, True)] + [("key", 2, True)] * n + [(kind, 2, True), ("comment", 2, False)]
    for width, depth in ((2, 3), (3, 2), (2, 4), (3, 3), (5, 2), (2, 5)) if tier == "quick" else itertools.product(range(2, 6), range(2, 5)):
        def tree(level):
            if level == depth:
                return [("key", 2 * level, True), ("comment", 2 * level, False)]
            return [x for _ in range(width) for x in (("open", 2 * level, True), *tree(level + 1))]

        def trees(level):
            if level == depth:
                return [("comment", 4 * level, False), ("key", 4 * level, True)]
            return [x for _ in range(width) for x in (("itemopen", 4 * level, True), *trees(level + 1))]

        yield tree(0)
        yield trees(0)


def run(tier):
    quick = tier == "quick"
    plan = [("lines", SMALL if quick else ALPHABET, 4 if quick else 5), ("three columns", ALPHABET, 3 if quick else 2), ("extra", EXTRA, 3 if quick else 4), ("odd columns", ODD, 3 if quick else 5)]

    def work(_, i, n, rep):
        def one(label, case):
            rep.count("documents " + label)
            if rep.counts["documents " + label] % 499 == 1:
                rep.sample(case)
            termcheck.guarded(judge, case, rep)

        try:
            for label, alphabet, depth in plan:
                # the first two lines choose the worker
                starts = list(itertools.product(alphabet, repeat=2))
                for start in starts[i::n]:
                    for lines in grow(alphabet, depth, start):
                        keys = render(lines)[1]
                        if not keys or not any(x[0] in ("comment", "hash") or x[2] for x in lines):
                            continue
                        settings = SETTINGS if label != "odd columns" else SETTINGS[:3]
                        if len(lines) == depth and quick and label == "lines":
                            settings = ["side", "above", "below", ["below", "side"]]
                        one(label, {"lines": [list(x) for x in lines], "settings": settings, "config": {}})
            for lines in list(large(tier))[i::n]:
                if ok(lines):
                    one("large", {"lines": [list(x) for x in lines], "settings": SETTINGS if len(lines) < 60 else ["side", "above", "below"], "config": {}})
                else:
                    rep.count("rejected large")
            cases = []
            for t in TEXTS:
                for where in PLACES:
                    for lead in (" ", "", "  "):
                        cases.append({"text": ([lead + t], None, []), "place": where, "settings": SETTINGS, "config": {}})
                        cases.append({"text": ([], lead + t, []), "place": where, "settings": SETTINGS, "config": {}})
                        cases.append({"text": ([], None, [lead + t]), "place": where, "settings": SETTINGS, "config": {}})
                for u in TEXTS:
                    cases.append({"text": ([" " + t], " " + u, []), "place": "alone", "settings": SETTINGS, "config": {}})
                    cases.append({"text": ([], " " + u, [" " + t]), "place": "nested", "settings": SETTINGS, "config": {}})
                    cases.append({"text": ([" " + t, " " + u], None, []), "place": "nested", "settings": ["above"], "config": {}})
                    cases.append({"text": ([], None, [" " + t, " " + u]), "place": "alone", "settings": ["below"], "config": {}})
            for ts in written(tier):
                cases.append({"text": ([" " + t for t in ts], None, []), "place": "nested", "settings": ["above"], "config": {}})
                cases.append({"text": ([], None, [" " + t for t in ts]), "place": "alone", "settings": ["below"], "config": {}})
                if len(ts) == 1:
                    cases.append({"text": ([], " " + ts[0], []), "place": "first", "settings": ["side"], "config": {}})
            for ts in MULTI:
                for where in PLACES:
                    ts_ = [" " + t if t else "" for t in ts]
                    cases.append({"text": (ts_, " side", []), "place": where, "settings": SETTINGS, "config": {}})
                    cases.append({"text": ([], " side", ts_), "place": where, "settings": SETTINGS, "config": {}})
            for value in ("x", "'a # b'", '"a # b"', "it's", "{p: 1}", "[1]", "a#b", "~", "-1", "a: b".replace(": ", ":"), "&x 1", "!!str 1", "'it''s'", '"x\\"y"', "|\n    it is: x", "> \n    a # b", "2020-01-01", "a-b", "it", "'it: 1'"):
                for where in PLACES[:-1]:
                    side = None if "\n" in value else " side c"
                    cases.append({"text": ([" above c"], side, [" below c"] if "\n" not in value else []), "place": where, "value": value, "settings": SETTINGS if "\n" not in value else ["above", []], "config": {}})
            for case in cases[i::n]:
                one("texts", case)
            for raw in list(shared_documents())[i::n]:
                one("shared", {"shared": raw, "settings": ["side", ["side", "above"], "below"], "config": {}})
        finally:
            cleanup()

    rep = runner.parallel(work, None)
    c = rep.counts
    return rep, {
        "states": len(rep.sets.get("states", ())),
        "transitions": c.get("files", 0),
        "traces_validated_against_impl": c.get("files", 0),
        "distinct_outcomes": len(rep.sets.get("outcomes", ())),
        "documents": {k[10:]: v for k, v in c.items() if k.startswith("documents ")},
        "bounds": {label: {"alphabet": len(a), "lines": d} for label, a, d in plan},
        "rule": "every accepted document over each line alphabet up to the stated number of lines; documents of up to hundreds of lines and dozens of levels; every comment text x place; every subset of comments on equal dictionaries",
        "exhaustive": True,
    }


def replay(case, rep):
    try:
        termcheck.guarded(judge, case, rep)
    finally:
        cleanup()
