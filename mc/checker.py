"""What a static type checker (mypy) makes of generated modules.

mypy reads modules in large batches; the types it reveals are parsed into the
IR of the oracle as far as both can be compared.
"""
import ast
import os
import re
import shutil
import subprocess
import tempfile

from . import env

STUBS = os.path.join(env.VERIF, "stubs")
PYTHON = "/opt/venv/bin/python"
OPTIONS = ["--ignore-missing-imports", "--no-error-summary", "--hide-error-context", "--no-color-output", "--config-file=", "--python-executable", PYTHON]


class CannotCheck(Exception):
    """mypy itself did not work."""


def find_mypy():
    """The newest one: the one of the project does not know ReadOnly."""
    for path in ("/opt/veriftools/pyvenv/bin/mypy", "/usr/local/bin/mypy", shutil.which("mypy") or ""):
        if os.path.exists(path):
            return path
    raise CannotCheck("no mypy")


def run(folder, targets, cache=None, path=STUBS, seconds=600):
    e = {**os.environ, "MYPYPATH": path, "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
    e.pop("PYTHONPATH", None)
    caching = ["--cache-dir", cache] if cache else ["--no-incremental", "--cache-dir=/dev/null"]
    p = subprocess.run([find_mypy(), *OPTIONS, *caching, *targets], cwd=folder, env=e, capture_output=True, text=True, encoding="utf-8", timeout=seconds)
    if p.returncode not in (0, 1) or p.stderr.strip():
        raise CannotCheck(f"exit {p.returncode}: {p.stderr[-500:]}{p.stdout[-500:]}")
    return p.stdout.splitlines()


def check_batch(sources):
    """[(errors, revealed)] per source: [(line, message)] each."""
    folder = tempfile.mkdtemp(prefix="mypy-")
    try:
        for i, s in enumerate(sources):
            with open(os.path.join(folder, f"m{i}.py"), "w", encoding="utf-8") as f:
                f.write(s)
        out = [([], []) for _ in sources]
        for line in run(folder, ["."]):
            m = re.match(r"(?:\./)?m(\d+)\.py:(\d+): (\w+): (.*)", line)
            if not m:
                raise CannotCheck(line)
            i, no, kind, message = int(m[1]), int(m[2]), m[3], m[4]
            r = re.fullmatch(r'Revealed type is "(.*)"', message)
            if r:
                out[i][1].append((no, r[1]))
            elif kind == "error":
                out[i][0].append((no, message))
        return out
    finally:
        shutil.rmtree(folder)


def known_site(message, lines, no):
    """The place a listed finding goes by, if the error is about one: a
    protocol's __call__ without self, or labels of a frame class that are no
    strings and missing in its implementation."""
    line = lines[no - 1]
    if message.startswith('"self" parameter missing for a non-static method') and "def __call__(" in line:
        return "protocol-call-without-self"
    m = re.match(r"Overloaded function implementation does not accept all possible parameters of signature (\d+)", message)
    if m and line.strip() == "def __getitem__(" and '"pd.Series[bool]",' in "".join(lines[no : no + 4]):
        start = max(k for k in range(no) if lines[k].startswith("class "))
        labels = [x[1] for x in (re.match(r"    def __getitem__\(self, key: Literal\[(.*)\]\) -> ", y) for y in lines[start:no]) if x]
        n = int(m[1]) - 1
        if n < len(labels) and not isinstance(ast.literal_eval(labels[n]), str):
            return "autocomplete-labels-that-are-no-strings"
    return None


# ------------------------------------------------------------- revealed types
TOKEN = re.compile(r"\s*('(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|->|\.\.\.|\*\*|[\w.@]+|[^\w\s])")
ONE = {"list": "list", "typing.Sequence": "seq", "set": "set", "frozenset": "fset", "typing.Iterator": "iter", "type": "type", "pandas.Series": "series", "builtins.list": "list", "builtins.set": "set", "builtins.frozenset": "fset", "builtins.type": "type"}
TWO = {"dict": "dict", "typing.Mapping": "map", "types.MappingProxyType": "mproxy", "builtins.dict": "dict"}
BARE = {tuple: ("vtuple", ("any",)), frozenset: ("fset", ("any",)), list: ("list", ("any",)), set: ("set", ("any",)), dict: ("dict", ("any",), ("any",))}  # as a type checker completes them
TYPESHED = {"ellipsis": "EllipsisType", "function": "function", "Warning": "Warning"}  # known to type checkers only
ATOMS = {"Any": ("any",), "None": ("none",), "object": ("object",), "typing.TextIO": ("textio",), "typing.BinaryIO": ("binio",), "types.ModuleType": ("module",)}


class Parser:
    """Of what mypy prints."""

    def __init__(self, text):
        self.t = TOKEN.findall(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def take(self, expected=None):
        t = self.peek()
        if expected is not None and t != expected:
            raise ValueError(f"{expected} expected: {' '.join(self.t[self.i:])[:80]}")
        self.i += 1
        return t

    def whole(self):
        ir = self.union()
        if self.peek():
            raise ValueError(f"rest: {' '.join(self.t[self.i:])[:80]}")
        return ir

    def union(self):
        members = [self.one()]
        while self.peek() == "|":
            self.take()
            members.append(self.one())
        return union(members)

    def args(self, close):
        out = []
        while self.peek() != close:
            out.append(self.union())
            if self.peek() == ",":
                self.take()
        self.take(close)
        return out

    def one(self):
        t = self.take()
        if t == "(":
            ir = self.union()
            self.take(")")
            return ir
        if t == "...":
            return ("ellipsis",)
        if t == "def":
            self.take("(")
            n = 0
            while self.peek() != ")":
                if self.take() == ",":
                    continue
                n += 1
                while self.peek() not in (",", ")"):
                    self.take()
            self.take(")")
            star = self.t[self.i - 2 : self.i - 1] == ["Any"] and "**" in self.t[max(0, self.i - 4) : self.i]
            if self.peek() == "->":
                self.take()
                if self.one() != ("any",):
                    raise ValueError("returned type of a callable")
            return ("call", None if star else n)
        if t == "TypedDict":
            self.take("(")
            if re.match(r"[\w.]", self.peek()):
                self.take()
                self.take(",")
            self.take("{")
            fields = []
            while self.peek() != "}":
                key = ast.literal_eval(self.take())
                marks = ""
                while self.peek() in "?=":
                    marks += self.take()
                self.take(":")
                fields.append((key, self.union(), "?" not in marks, "=" in marks))
                if self.peek() == ",":
                    self.take()
            self.take("}")
            self.take(")")
            return ("td", tuple(sorted(fields, key=lambda f: f[0])))
        args = None
        if self.peek() == "[":
            self.take()
            args = self.args("]")
        if t in ("tuple", "builtins.tuple"):
            if args is None:
                return ("named", t)
            if len(args) == 2 and args[1] == ("ellipsis",):
                return ("vtuple", args[0])
            return ("tuple", tuple(a for a in args))
        if t in ONE and args and len(args) == 1:
            return (ONE[t], args[0])
        if t in TWO and args and len(args) == 2:
            return (TWO[t], *args)
        if t == "numpy.ndarray":
            return ("ndarray",)
        if args is None and t in ATOMS:
            return ATOMS[t]
        name = t.rsplit(".", 1)[-1]
        if re.match(r"m\d+\.", t):
            return ("declared", name)
        return ("cls", name)


def union(members):
    out = set()
    for m in members:
        if m[0] == "union":
            out |= m[1]
        else:
            out.add(m)
    if ("object",) in out and ("none",) in out:
        out.discard(("object",))
    return next(iter(out)) if len(out) == 1 else ("union", frozenset(out))


def parse(revealed):
    return Parser(revealed).whole()


def comparable(ir):
    """The IR of the executed module, reduced to what a type checker tells."""
    k = ir[0]
    if k == "union":
        return union(comparable(m) for m in ir[1])
    if k == "tuple":
        return ("tuple", tuple(comparable(t) for t in ir[1]))
    if k == "td":
        return ("td", tuple(sorted(((key, comparable(t), r, ro) for key, t, r, ro in ir[1]), key=lambda f: f[0])))
    if k == "fwd":
        # a class of the user is unknown within the module
        return ("cls", TYPESHED[ir[1]]) if ir[1] in TYPESHED else ("any",)
    if k == "ndarray":
        return ("ndarray",)
    if k in ("proto", "df"):
        return ("declared", None)
    if k == "cls":
        return BARE.get(ir[1], ("cls", ir[1].__name__))
    if k == "type" and ir[1][0] == "cls":
        return ("type", comparable(ir[1]))
    if k in ("call", "any", "none", "object", "textio", "binio", "module", "literal", "callr"):
        return ir
    return (k, *(comparable(t) for t in ir[1:]))


def nameless(ir):
    """Without the names of declarations."""
    k = ir[0]
    if k == "declared":
        return ("declared", None)
    if k == "union":
        return union(nameless(m) for m in ir[1])
    if k == "tuple":
        return ("tuple", tuple(nameless(t) for t in ir[1]))
    if k == "td":
        return ("td", tuple((key, nameless(t), r, ro) for key, t, r, ro in ir[1]))
    if k in ("call", "cls", "ndarray", "literal", "callr", "named", "ellipsis"):
        return ir
    return (k, *(nameless(t) for t in ir[1:]))


def show(ir):
    k = ir[0]
    if k == "union":
        return "U(" + "|".join(sorted(show(m) for m in ir[1])) + ")"
    if k == "td":
        return "TD{" + ",".join(f"{key!r}{'' if r else '?'}{'!' if ro else ''}:{show(t)}" for key, t, r, ro in ir[1]) + "}"
    if k == "tuple":
        return "tuple(" + ",".join(show(t) for t in ir[1]) + ")"
    if len(ir) > 1 and isinstance(ir[1], tuple) and ir[1] and isinstance(ir[1][0], str):
        return k + "(" + ",".join(show(t) for t in ir[1:]) + ")"
    return ":".join(map(str, ir))
