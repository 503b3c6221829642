"""C06: every history of renderings of one result, against the first rendering
of a fresh result."""
import ast
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from mc import env, gen, runner, termcheck, world
from mc.gen import LazyTypeHint, strategies

LEVEL = "model_checking"
ASSUMPTIONS = ["histories are explored up to the stated depth, on the listed representative values"]
OPS = ["text", "bare", "file", "file again", "missing", "create", "other"]
VALUES = [
    "1", "None", "[1]", "[[1], ['s']]", "{'a': 1, 'b': [{'c': 1}, {'c': 1, 'd': 2}]}", "({'a': [[1]]}, {'b': [[1]]})", "{1: {'a': 's'}}", "{'a b': 1, 'class': {'é': 1}}",
    "[fn_plain, lambda a: 1]", "{'f': fn_any}", "Custom()", "[Custom, int]", "np.array([1])", "pd.DataFrame({'a': [1], 'b': ['x']})", "pd.Series([1])",
    "iter([[1]])", "(1, 's', None)", "{1, 's'}", "MappingProxyType({'a': [1]})", "{'doc': 'Words é', 'k': [1, 1.5]}", "open('/dev/null')", "math", "{'a': {'b': {'c': [[1]]}}}",
    "{f'key{i}': {f'k{i}': [[i], 's']} for i in range(70)}", "[[[[[[[[[[[[1]]]]]]]]]]]]", "{'é' * 3000: 1, 'a b' * 2000: 's'}",
]
CONFIGS = [{}, {"key_used_as_doc": "doc", "min_height_to_define_type_alias": 0, "typed_dict_read_only_values": True}]


def tree_of(root):
    return sorted((os.path.join(d, f), open(os.path.join(d, f), "rb").read()) for d, _, fs in os.walk(root) for f in fs) + sorted(d for d, _, _ in os.walk(root))


class Bench:
    """One result and the operations on it; `ref` holds what a fresh result
    gives for each operation."""

    def __init__(self, root):
        self.root = root

    def fresh(self, value, config):
        return LazyTypeHint(strategies(config)).from_data(world.build(value), class_name="X")

    def apply(self, result, op, n):
        if op == "text":
            return result.to_string()
        if op == "bare":
            return result.to_string(include_imports=False)
        if op == "other":
            gen.text_of([{"a": [[1]]}, {"z": {2.5}}], {"list_strategy": "Sequence"}, "Y")
            return None
        if op in ("file", "file again"):
            path = os.path.join(self.root, "out.py")
            if op == "file again":
                Path(path).write_text("x" * 5000)
            result.to_file(path if n % 2 else Path(path))
            return Path(path).read_bytes().decode("utf-8")
        if op == "missing":
            before = tree_of(self.root)
            try:
                result.to_file(os.path.join(self.root, "no", "dir", "a.py"))
            except Exception:  # noqa: BLE001
                return "refused" if tree_of(self.root) == before else "changed the directory"
            return "accepted"
        path = os.path.join(self.root, f"new{n}", "deep", "a.py")
        result.to_file(path, create_non_existing_dir=True)
        return Path(path).read_bytes().decode("utf-8")


def imports_only(text, bare):
    """Whether text is bare plus import statements on top (blank lines aside)."""
    lines = text.split("\n")
    for node in ast.parse(text).body:
        if not isinstance(node, (ast.Import, ast.ImportFrom)):
            break
        lines[node.lineno - 1 : node.end_lineno] = [""] * (node.end_lineno - node.lineno + 1)
    return [line for line in lines if line.strip()] == [line for line in bare.split("\n") if line.strip()]


def judge(case, rep):
    root = tempfile.mkdtemp(prefix="c06-")
    try:
        bench = Bench(root)
        value, config = case["value"], case["config"]
        text = bench.fresh(value, config).to_string()
        bare = bench.fresh(value, config).to_string(include_imports=False)
        if not imports_only(text, bare):
            rep.violation(case, "imports", "without imports the text differs in more than its import block")
        want = {"text": text, "bare": bare, "file": text, "file again": text, "create": text, "missing": "refused", "other": None}
        rep.seen("outcomes", (text, bare))
        result = bench.fresh(value, config)
        for n, op in enumerate(case["history"]):
            got = bench.apply(result, op, n)
            if got != want[op]:
                rep.violation(case, "rendering", f"operation {n} ({op}) gave {str(got)[:300]!r} instead of {str(want[op])[:300]!r}")
                return
    finally:
        shutil.rmtree(root)


FILE_NAMES = ["a", "a.pyi", "a.txt", "a.b.py", "a.b", ".hidden", ".hidden.py", "a.PY", "a.py.bak", "é.py", "a b.py", "a.", "py", ".py", "-", "a.py~", "a#.py", "x" * 200 + ".py", "out.json", "stub"]
HOW = ["str", "Path", "relative str", "relative Path", "over an old file", "through a link", "new directory", "new directory with a dot", "new directory that exists"]


def judge_name(case, rep):
    """Exactly the file asked for is written, with exactly the text."""
    root = tempfile.mkdtemp(prefix="c06-")
    home = os.getcwd()
    try:
        bench = Bench(root)
        text = bench.fresh(case["value"], {}).to_string()
        how, name = case["how"], case["file"]
        folder = {"new directory": "no/deep", "new directory with a dot": "no.d/deep.py", "new directory that exists": "here.d"}.get(how, "")
        os.mkdir(os.path.join(root, "here.d"))
        os.chdir(root)
        path = os.path.join("" if "relative" in how else root, folder, name)
        target = os.path.join(root, folder, name)
        if how == "over an old file":
            Path(path).write_text("old " * 9999)
        if how == "through a link":
            target = os.path.join(root, "target")
            os.symlink(target, path)
        before = files(root) - {target}
        give = Path(path) if "Path" in how else path
        result = bench.fresh(case["value"], {})
        result.to_file(give, create_non_existing_dir=True) if folder else result.to_file(give)
        after = files(root)
        if after - before - {os.path.join(root, folder, name)} != {target} - {os.path.join(root, folder, name)} or target not in after:
            rep.violation(case, "file", f"wrote {sorted(os.path.relpath(p, root) for p in after - before)} instead of {name!r}")
        elif Path(target).read_bytes().decode("utf-8") != text:
            rep.violation(case, "file", "the file does not hold the text")
    finally:
        os.chdir(home)
        shutil.rmtree(root)


def old_contents(text):
    """What a file may hold before: everything close to the new text."""
    raw = text.encode("utf-8")
    yield raw
    for n in {*range(0, len(raw), max(1, len(raw) // 40)), *range(max(0, len(raw) - 3), len(raw) + 4)}:
        yield b"#" * n
        yield raw[:n] + b"#" * max(0, n - len(raw))
    for n in range(0, len(raw), max(1, len(raw) // 150)):
        yield raw[:n] + (b"#" if raw[n : n + 1] != b"#" else b"_") + raw[n + 1 :]
    yield raw.replace(b"\n", b"\r\n")
    yield b"\xef\xbb\xbf" + raw
    yield raw + b"\n"
    yield b"\n" + raw
    yield raw.strip() + b"\n\n"
    yield raw.replace(b" ", b"")
    yield raw.upper()
    yield b"\n".join(sorted(raw.splitlines()))
    yield b"\n".join(reversed(raw.splitlines()))
    yield raw * 2
    yield b"\xff\x00"


def judge_old(case, rep):
    """Whatever the file held, and whenever it was written, it holds the text."""
    root = tempfile.mkdtemp(prefix="c06-")
    try:
        bench = Bench(root)
        result = bench.fresh(case["value"], {})
        text = bench.fresh(case["value"], {}).to_string()
        path = os.path.join(root, "a.py")
        for old in sorted(set(old_contents(text))):
            for when in (None, 0, 4_000_000_000):
                Path(path).write_bytes(old)
                if when is not None:
                    os.utime(path, (when, when))
                result.to_file(path)
                rep.count("executions")
                rep.count("old contents")
                if Path(path).read_bytes() != text.encode("utf-8"):
                    rep.violation(case, "old content", f"over {old!r} ({when}): {Path(path).read_bytes()!r}")
                    return
    finally:
        shutil.rmtree(root)


def files(root):
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs}


LOCALE = """
import sys; sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from lazy_type_hint import LazyTypeHint
r = LazyTypeHint().from_data({'\\u00e9': 1, '\\u65e5': [1]}, class_name='X')
r.to_file(sys.argv[2])
sys.exit(0 if open(sys.argv[2], 'rb').read().decode('utf-8') == r.to_string() else 3)
"""


def judge_locale(case, rep):
    root = tempfile.mkdtemp(prefix="c06-")
    try:
        e = {**os.environ, **case["environ"]}
        p = subprocess.run([sys.executable, "-c", LOCALE, env.REPO, os.path.join(root, "a.py")], env=e, capture_output=True, text=True, timeout=120, check=False)
        if p.returncode:
            rep.violation(case, "rendering", f"under {case['environ']} the file is not the text: {p.stderr[-400:]}")
    finally:
        shutil.rmtree(root)


def run(tier):
    depth = 5 if tier == "thorough" else 3
    cases = [{"value": v, "config": c, "history": list(h)} for v in VALUES for c in CONFIGS for h in itertools.product(OPS, repeat=depth)]

    named = [{"value": v, "file": f, "how": h} for v in ("[[1]]", "{'é': 1}") for f in FILE_NAMES for h in HOW]

    def work(items, i, n, rep):
        for case in [{"value": v, "old": True} for v in VALUES if "key{i}" not in v][i::n]:
            rep.seen("states", str(case))
            termcheck.guarded(judge_old, case, rep)
        for case in named[i::n]:
            rep.count("executions")
            rep.seen("states", str(case))
            rep.seen("transitions", str(case))
            termcheck.guarded(judge_name, case, rep)
        for case in items[i::n]:
            rep.count("executions")
            for k in range(depth + 1):
                rep.seen("states", (case["value"], str(case["config"]), tuple(case["history"][:k])))
            for k in range(depth):
                rep.seen("transitions", (case["value"], str(case["config"]), tuple(case["history"][: k + 1])))
            if rep.counts["executions"] % 499 == 1:
                rep.sample(case)
            termcheck.guarded(judge, case, rep)

    rep = runner.parallel(work, cases)
    for environ in ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}):
        rep.count("executions")
        termcheck.guarded(judge_locale, {"environ": environ}, rep)
    cov = termcheck.coverage(rep, f"every history of {depth} operations out of {OPS} on every listed value and configuration (states are history prefixes), every listed file name written in every listed way, and every listed old content of the file (every length around that of the text, one character changed anywhere, other line ends, dates)")
    return rep, cov


def replay(case, rep):
    judge_one = judge_locale if "environ" in case else judge_name if "file" in case else judge_old if "old" in case else judge
    termcheck.guarded(judge_one, case, rep)
