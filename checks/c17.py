"""C17: every configuration over pools of valid and invalid choices, and every
class name over an alphabet up to a length, against a reference acceptor."""
import ast
import itertools
import keyword
import os
import unicodedata

from mc import live, runner, seam, termcheck, world

LEVEL = "model_checking"
ASSUMPTIONS = ["numeric settings are integers (or None for the inspection limit) and names are strings", "names that Python itself rewrites (NFKC) are excluded"]
CHOICES = {
    "list_strategy": ["Sequence", "list"],
    "tuple_size_strategy": ["fixed", "any size"],
    "dict_strategy": ["TypedDict", "Mapping", "dict"],
    "pandas_strategies": ["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"],
}
NUMBERS = {
    "min_height_to_define_type_alias": lambda x: x >= 0,
    "merge_different_typed_dicts_if_similarity_above": lambda x: 1 <= x <= 100,
    "check_max_n_elements_within_container": lambda x: x is None or x >= 1,
}
FREE = {"typed_dict_read_only_values": [False, True], "key_used_as_doc": ["", "doc", "a b", "é"]}


def near(choice):
    """Every spelling one edit away from a choice, and unrelated ones."""
    out = {choice.upper(), choice.lower(), choice.title(), choice.capitalize(), choice.swapcase(), choice + " ", " " + choice, choice.replace(" ", "_"), choice.replace(" ", ""), choice.replace(" ", "-"), choice + choice, "typing." + choice, repr(choice)}
    for i in range(len(choice)):
        out |= {choice[:i] + choice[i + 1 :], choice[: i + 1] + choice[i:], choice[:i], choice[:i] + choice[i].swapcase() + choice[i + 1 :]}
    return out


def spellings(field):
    out = set()
    for c in itertools.chain(*CHOICES.values()):
        out |= {c} if field is None else {c, *near(c)}
    return sorted(out | {"", "None", "tuple", "Dict", "List", "TypeDict", "any", "size", "*", "0"}) + [None, 0, True]


def acceptable(config):
    return all(v in CHOICES[f] if f in CHOICES else NUMBERS[f](v) if f in NUMBERS else True for f, v in config.items())


def configurations(tier):
    wide = range(-8, 140) if tier == "quick" else range(-300, 1300)
    for f in CHOICES:
        for v in spellings(f):
            yield {f: v}
    for f in NUMBERS:
        for v in [*wide, -(10**9), 10**9, 10**30]:
            yield {f: v}
    yield {"check_max_n_elements_within_container": None}
    pools = {
        **{f: [*CHOICES[f], next(c for g in CHOICES if g != f for c in CHOICES[g]), CHOICES[f][0].lower() + "s"] for f in CHOICES},
        "min_height_to_define_type_alias": [-1, 0, 1] if tier == "quick" else [-2, -1, 0, 1, 5],
        "merge_different_typed_dicts_if_similarity_above": [0, 1, 100, 101] if tier == "quick" else [-1, 0, 1, 50, 100, 101],
        "check_max_n_elements_within_container": [None, 0, 1] if tier == "quick" else [None, -1, 0, 1, 500],
        "typed_dict_read_only_values": [False, True],
    }
    names = list(pools)
    for vs in itertools.product(*pools.values()):
        yield dict(zip(names, vs))
    # every pair of free settings with every pair of boundary values
    for a, b in itertools.product(*FREE.values()):
        yield dict(zip(FREE, (a, b)))


def judge_config(case, rep, sb):
    config = case["config"]
    try:
        made = sb.Strategies(**config)
    except ValueError as e:
        if acceptable(config):
            rep.violation(case, "refused", f"a valid configuration is refused: {e}")
        rep.seen("outcomes", ("refused", str(e)[:30]))
        return
    if not acceptable(config):
        rep.violation(case, "accepted", "an invalid configuration is accepted")
        return
    rep.seen("outcomes", tuple(sorted(map(repr, config.items()))))
    for f, v in config.items():
        if getattr(made, f) != v:
            rep.violation(case, "altered", f"{f} became {getattr(made, f)!r}")


ALPHABET = ["a", "Z", "_", "1", " ", "-", ".", "/", "'", '"', "\n", "é", "日", "²", "$", "\\", "(", "=", "#", "{", "\x00", "\u200b", "·", "٣"]
VALUES = ["1", "None", "[1]", "{'a': 1}", "{1: [2]}", "(1, 's')", "Custom", "Custom()", "fn_plain", "lambda a: a", "pd.DataFrame({'a': [1]})", "math", "np.array([1])", "pd.Series([1])", "iter([1])", "{1}", "MappingProxyType({'a': 1})", "[{'a': 1}]", "open('/dev/null')", "len"]
WORDS = sorted({*keyword.kwlist, *keyword.softkwlist, "__debug__", "print", "self", "NotImplemented", "async_", "exec", "nonlocal_"} | {w.lower() for w in keyword.kwlist} | {w.capitalize() for w in keyword.kwlist} | {w.upper() for w in keyword.kwlist} | {w + "_" for w in keyword.kwlist} | {"_" + w for w in keyword.kwlist} | {w + " " for w in keyword.kwlist})
PATHS = ["../A", "a/b", "./A", "A.py", "A B", "A;import os", "A:\n pass", "A(int)", "A\n", "\nA", " A", "A ", "A=1", "A,B", "A#", "*", "*A", "...", "0", "1A", "A-B", "a.b", "A[int]", "\ud800", "A\x00", "x" * 100]


def usable(name):
    """Whether Python accepts it as the name of a class, told by Python itself."""
    try:
        tree = ast.parse(f"class {name}: pass")
        compile(tree, "n", "exec")
    except (SyntaxError, ValueError):
        return False
    return len(tree.body) == 1 and isinstance(tree.body[0], ast.ClassDef) and tree.body[0].name == name and not tree.body[0].bases and len(tree.body[0].body) == 1


def names(tier):
    for n in range(0, 3 if tier == "quick" else 4):
        for cs in itertools.product(ALPHABET, repeat=n):
            yield "".join(cs)
    yield from WORDS
    yield from PATHS
    if tier != "quick":
        yield from (a + b for a in keyword.kwlist for b in ALPHABET)
        yield from (b + a for a in keyword.kwlist for b in ALPHABET)
    limit = 0x3000 if tier == "quick" else 0x11000
    for c in range(128, limit):  # every character, first and later
        yield chr(c)
        yield "a" + chr(c)


def long_names(tier):
    """(name, whether also as a live class, of which the name is a file)."""
    lengths = range(1, 253) if tier != "quick" else [*range(1, 30), *range(30, 253, 7), *(2**k + d for k in range(5, 8) for d in (-1, 0, 1)), 100, 200, 250, 252]
    for n in sorted(set(lengths)):
        for start, then in (("A", "a"), ("_", "_"), ("A", "1"), ("\u00e9", "\u00e9"), ("1", "a"), ("Z", " ")):
            name = start + then * (n - 1)
            yield name, len(name.encode()) <= 252
        yield ("if" * n)[:n], True
        yield ("A" * n)[:-1] + "-", True
    for n in (300, 500, 512, 513, 1000, 1024, 5000):
        for start, then in (("A", "a"), ("1", "a"), ("A", "-")):
            yield start + then * (n - 1), False
    for n in (12, 40, 64, 130):  # each position
        for k in range(n):
            for bad in "-. \n":
                yield "A" * k + bad + "A" * (n - k - 1), True


def stable(name):
    try:
        return unicodedata.normalize("NFKC", name) == name
    except UnicodeError:
        return True


def judge_name(case, rep, sb):
    name = case["name"]
    good = usable(name)
    rep.seen("outcomes", ("name", good))
    for how in case["how"]:
        effects = seam.Recorder()
        try:
            with seam.Seam([sb.root], effects):
                if how == "plain":
                    text = sb.Plain().from_data(world.build(case["value"]), class_name=name).to_string()
                elif how == "plain yaml":
                    text = sb.Plain().from_yaml_file(lambda p: {"a": 1}, sb.yaml_path, class_name=name).to_string()
                elif how == "live":
                    sb.Live().from_data(world.build(case["value"]), class_name=name)
                else:
                    sb.Live().from_yaml_file(lambda p: {"a": 1}, sb.yaml_path, class_name=name)
        except Exception as e:  # noqa: BLE001
            if good:
                rep.violation(case, "refused", f"{how}: a usable name raises {type(e).__name__}: {e}")
            elif not type(e).__module__.startswith("lazy_type_hint"):
                rep.violation(case, "error", f"{how}: refused with {type(e).__name__}: {e}")
            elif effects.effects:
                rep.violation(case, "wrote", f"{how}: refused but {effects.effects[:3]}")
            continue
        if not good:
            rep.violation(case, "accepted", f"{how}: the name is accepted")
        elif how.startswith("plain"):
            tree = ast.parse(text)
            if not any(getattr(n, "name", None) == name or isinstance(n, ast.AnnAssign) and n.target.id == name or isinstance(n, ast.Assign) and n.targets[0].id == name for n in tree.body):
                rep.violation(case, "unbound", f"{how}: the module does not bind it")
        else:
            path = os.path.join(sb.build, name + ".py")
            if not os.path.exists(path):
                rep.violation(case, "unbound", f"{how}: nothing was stored")
            sb.clear()


SUFFIXES = [".yaml", ".yml", ".YAML", ".Yml", ".yaml ", ".yml2", ".xyaml", ".xyml", ".aml", ".ml", ".toml", ".xml", ".html", ".l", ".y", ".yl", ".yam", ".ym", ".ya", ".json", ".txt", "", ".", ".yaml.txt", ".txt.yaml", ".yaml.yml", ".yml.", "yaml", "yml", ".yaml~", "-yaml", ".pyyaml", ".cfg.yml", ".YML", ".ýml"]
STEMS = ["a", ".a", "a.b", "é", "a b", "yaml", ""]
SPOTS = ["side", "above", "below"]


def judge_file(case, rep, sb):
    """YAML generation takes exactly .yaml and .yml files, and no 'above' together with 'below'."""
    import pathlib

    name, spots = case["file"], case["positions"]
    folder = os.path.join(sb.root, "files")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, name)
    try:
        with open(path, "w") as f:
            f.write("a: 1 # One\n")
        good = spots is None or pathlib.PurePath(name).suffix in (".yaml", ".yml") and not {"above", "below"} <= set(spots if isinstance(spots, list) else [spots])
        rep.seen("outcomes", ("file", good))
        for make in (sb.Plain, sb.Live):
            for given in (path, pathlib.Path(path)):
                effects = seam.Recorder()
                try:
                    with seam.Seam([sb.root], effects):
                        make().from_yaml_file(lambda p: {"a": 1}, given, class_name="A", comments_are=tuple(spots) if isinstance(spots, list) and case.get("tuple") else spots)
                except Exception as e:  # noqa: BLE001
                    if good:
                        rep.violation(case, "refused", f"a YAML file is refused: {type(e).__name__}: {e}")
                    elif not type(e).__module__.startswith("lazy_type_hint"):
                        rep.violation(case, "error", f"refused with {type(e).__name__}: {e}")
                    elif effects.effects:
                        rep.violation(case, "wrote", f"refused but {effects.effects[:3]}")
                    continue
                if not good:
                    rep.violation(case, "accepted", "the file or the combination of positions is accepted")
        sb.clear()
    finally:
        os.remove(path)


def setup():
    sb = live.Sandbox()
    sb.yaml_path = os.path.join(sb.root, "doc.yaml")
    with open(sb.yaml_path, "w") as f:
        f.write("a: 1 # One\n")
    return sb


def cases(tier):
    for c in configurations(tier):
        yield {"config": c}
    everything = ["plain", "plain yaml", "live", "live yaml"]
    for name in dict.fromkeys(names(tier)):
        if stable(name):
            odd = not usable(name)
            single = len(name) <= 2 and not name.isascii()
            yield {"name": name, "value": "1", "how": ["plain"] if single else everything}
    for name, short in long_names(tier):
        yield {"name": name, "value": "{'a': [1, {'b': 's'}]}", "how": everything if short and len(name) % 10 == 0 else ["plain", "live"] if short else ["plain", "plain yaml"]}
    spots = [None, *SPOTS] + [list(p) for n in range(1, 4) for p in itertools.permutations(SPOTS, n)] + [["side", "side"], ["below", "below", "above"]]
    for p in spots:
        for t in (False, True):
            yield {"file": "a.yaml", "positions": p, "tuple": t}
    for stem, suffix in itertools.product(STEMS, SUFFIXES):
        if (stem + suffix).strip(".") and stem + suffix not in (".", ".."):
            for p in spots if tier != "quick" else ["side", ["below"], ["above", "below"], None]:
                yield {"file": stem + suffix, "positions": p}
    for name in [*PATHS[:12], "A", "_", "é", "class", "None", "", "1", "a-b", "match"]:
        for v in VALUES:
            yield {"name": name, "value": v, "how": ["plain", "live"] if v != "1" else ["plain"]}


def judge(case, rep, sb):
    (judge_config if "config" in case else judge_file if "file" in case else judge_name)(case, rep, sb)


def run(tier):
    def work(_, i, n, rep):
        sb = setup()
        for k, case in enumerate(itertools.islice(cases(tier), i, None, n)):
            rep.count("executions")
            rep.seen("states", repr(case))
            if k % 4001 == 0:
                rep.sample(case)
            termcheck.guarded(lambda c, r: judge(c, r, sb), case, rep)
        sb.close()

    rep = runner.parallel(work, None)
    return rep, {
        "states": len(rep.sets["states"]),
        "transitions": len(rep.sets["states"]),
        "traces_validated_against_impl": rep.counts["executions"],
        "distinct_outcomes": len(rep.sets["outcomes"]),
        "rule": f"configurations: every value of each setting alone (all integers of a range, all one-edit spellings of every choice) and the full product of boundary pools; names: every string up to {2 if tier == 'quick' else 3} characters of {len(ALPHABET)}, names up to 5000 characters and names with one bad character at each position, every keyword with its case and underscore variants, every character below U+{'3000' if tier == 'quick' else '11000'} first and later, each given to the plain and live generators; every listed file name with every listed suffix and every combination of comment positions; values of every kind under {len(PATHS)} odd names",
        "exhaustive": True,
    }


def replay(case, rep):
    sb = setup()
    termcheck.guarded(lambda c, r: judge(c, r, sb), case, rep)
