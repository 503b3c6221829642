"""C16: every signature over an alphabet of parameter kinds, annotations,
defaults and bodies, and every callable of many standard modules."""
import ast
import importlib
import importlib.util
import inspect
import itertools
import os
import shutil
import tempfile
import types
import typing

from mc import gen, oracle, runner, termcheck, world

LEVEL = "model_checking"
ASSUMPTIONS = [
    "inspect.signature tells a callable's parameters",
    "annotations are compared after resolving names against typing, collections.abc, numpy, pandas and the classes of the functions' own module",
    "a function's own body decides whether it can return something else than None",
]

PRELUDE = '''
import collections.abc
import contextlib
import functools
import typing
from typing import *
import numpy as np
import pandas as pd
T = TypeVar("T")
class Custom:
    class Inner: pass
class Child(Custom): pass
def wraps_deco(f):
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, **kwargs)
    return wrapper
def plain_deco(f):
    def wrapper(*a, **k):
        return f(*a, **k)
    return wrapper
def quiet_deco(f):
    def quiet(*a, **k):
        f(*a, **k)
    return quiet
'''
SOME_ANN = ["", ": int", ": 'Custom'"]
ANN = ["int", "str", "None", "Any", "Custom", "Child", "'Custom'", "'Unknown'", "Custom.Inner", "List[int]", "list[int]", "Dict[str, Custom]", "dict[str, 'Custom']", "Optional[int]", "Optional[Custom]", "Union[int, str, None]", "int | None", "Tuple[int, ...]", "Tuple[()]", "Callable[[int], str]", "Callable[..., Any]", "Callable", "Type[Custom]", "Literal['a', 1]", "Literal['a b', 'Custom']", "Sequence[Mapping[str, int]]", "np.ndarray", "pd.DataFrame", "pd.Series", "collections.abc.Iterable[int]", "Iterator[int]", "type", "object", "type(None)", "...", "1", "T", "List[T]", "Annotated[int, 'x']", "Final", "ClassVar[int]", "NoReturn", "Generator[int, None, str]", "Awaitable[int]", "TextIO", "Pattern[str]", "bytes", "'List[int]'", "'int | Custom'", "typing.List['Custom']", "'typing.List[int]'", "Set['Custom']", "FrozenSet[Tuple[int, str]]", "Hashable", "SupportsInt"]
DEFAULTS = ["None", "1", "'a'", "\"it's\"", "[]", "{}", "()", "Custom", "Custom()", "object()", "int", "len", "...", "lambda: 1", "float('nan')", "float('inf')", "-1", "1j", "b'x'", "np.nan", "{1}", "frozenset()", "range(2)", "'a\\nb'", "[Custom]", "True", "{'a': Custom()}", "1.5"]
# body, whether it can return anything but None
BODIES = [
    ("pass", False), ("'''Doc.'''", False), ("raise ValueError", False), ("x = 'return 1'", False), ("# return 1\n    pass", False),
    ("return", False), ("return None", False), ("def inner():\n        return 1", False), ("f = lambda: 1", False), ("class C:\n        def m(self):\n            return 1", False),
    ("return 1", True), ("if len('a'):\n        return 1", True), ("for _ in []:\n        return 1\n    else:\n        pass", True), ("try:\n        pass\n    finally:\n        return 1", True),
    ("yield", True), ("yield 1", True), ("x = yield", True), ("yield from []", True), ("with open('/dev/null'):\n        return 1", True), ("while True:\n        return 1", True),
    ("def inner():\n        pass\n    return inner", True), ("match 1:\n        case _:\n            return 1", True), ("return (\n        1)", True), ("x = [(yield)]", True), ("x = '''\nodd\n  indent'''\n    return 1", True), ("x = (1,\n2)\n    return x", True), ("if True: return 1", True), ("print(); return 1", True),
]


def signatures(n, anns, defaults=("", " = 1")):
    """Every valid parameter list of up to n parameters (text)."""
    kinds = ["po", "pk", "va", "ko", "vk"]
    for k in range(n + 1):
        for ks in itertools.combinations_with_replacement(kinds, k):
            if ks.count("va") > 1 or ks.count("vk") > 1:
                continue
            options = [[(a, d) for a in anns for d in (defaults if kind in ("po", "pk", "ko") else [""])] for kind in ks]
            for combo in itertools.product(*options):
                seen_default = False
                bad = False
                for kind, (_, d) in zip(ks, combo):
                    if kind in ("po", "pk"):
                        if seen_default and not d:
                            bad = True
                        seen_default = seen_default or bool(d)
                if bad:
                    continue
                parts = []
                for i, (kind, (a, d)) in enumerate(zip(ks, combo)):
                    if kind == "ko" and "va" not in ks and (i == 0 or ks[i - 1] != "ko"):
                        parts.append("*")
                    parts.append({"va": "*", "vk": "**"}.get(kind, "") + "abcdef"[i] + a + d)
                    if kind == "po" and (i + 1 == len(ks) or ks[i + 1] != "po"):
                        parts.append("/")
                yield ", ".join(parts)


FORMS = {
    "function": "def NAME(PARAMS)RETURN:\n    BODY\nTARGET = NAME\n",
    "async": "async def NAME(PARAMS)RETURN:\n    BODY\nTARGET = NAME\n",
    "static": "class C_NAME:\n  @staticmethod\n  def NAME(PARAMS)RETURN:\n    BODY\nTARGET = C_NAME.NAME\n",
    "static object": "class C_NAME:\n  @staticmethod\n  def NAME(PARAMS)RETURN:\n    BODY\nTARGET = C_NAME.__dict__['NAME']\n",
    "bound": "class C_NAME:\n  def NAME(selfPARAMS)RETURN:\n    BODY\nTARGET = C_NAME().NAME\n",
    "unbound": "class C_NAME:\n  def NAME(selfPARAMS)RETURN:\n    BODY\nTARGET = C_NAME.NAME\n",
    "class method": "class C_NAME:\n  @classmethod\n  def NAME(clsPARAMS)RETURN:\n    BODY\nTARGET = C_NAME.NAME\n",
    "class method object": "class C_NAME:\n  @classmethod\n  def NAME(clsPARAMS)RETURN:\n    BODY\nTARGET = C_NAME.__dict__['NAME']\n",
    "nested": "def outer_NAME():\n  def NAME(PARAMS)RETURN:\n    BODY\n  return NAME\nTARGET = outer_NAME()\n",
    "wraps": "@wraps_deco\ndef NAME(PARAMS)RETURN:\n    BODY\nTARGET = NAME\n",
    "plain decorator": "@plain_deco\ndef NAME(PARAMS)RETURN:\n    BODY\nTARGET = NAME\n",
    "quiet decorator": "@quiet_deco\ndef NAME(PARAMS)RETURN:\n    BODY\nTARGET = NAME\n",
    "renamed lambda": "NAME = lambda PARAMS: 1\nNAME.__name__ = 'NAME'\nTARGET = NAME\n",
    "lambda as method": "class C_NAME:\n  NAME = lambda selfPARAMS: 1\nC_NAME.NAME.__name__ = 'NAME'\nTARGET = C_NAME().NAME\n",
}


def write(form, params, returns, body, k):
    if form in ("bound", "unbound", "class method", "class method object", "lambda as method"):
        params = ", " + params if params else ""
    text = FORMS[form].replace("selfPARAMS", "self" + params).replace("clsPARAMS", "cls" + params).replace("PARAMS", params)
    return text.replace("RETURN", f" -> {returns}" if returns else "").replace("BODY", body).replace("TARGET", f"T{k}").replace("NAME", f"f{k}")


def specs(tier):
    """(form, parameters, return annotation, body index or None)"""
    q = tier == "quick"
    for p in signatures(2 if q else 3, SOME_ANN[:2] if q else SOME_ANN[:2]):
        yield "function", p, "", 0
        for f in ("static", "bound", "unbound", "class method") if q else list(FORMS):
            if "lambda" not in f:
                yield f, p, "int", 10
    for p in signatures(3 if q else 4, [""]):
        yield "function", p, "", 10
        yield "bound", p, "", 10
        if not q:
            yield "static object", p, "", 10
    for b in range(len(BODIES)):
        for f in list(FORMS):
            if f == "async" and "yield from" in BODIES[b][0]:
                continue
            if "lambda" in f and b > 0:
                continue
            yield f, "", "", b
            yield f, "a", "", b
            if "yield" not in BODIES[b][0] and "lambda" not in f:
                yield f, "a", "int", b
    for a in ANN:
        yield "function", f"a: {a}", "", 0
        yield "function", f"a: {a} = None", a, 0
        yield "bound", f"a, *b: {a}, c: {a} = 1, **d: {a}", a, 10
        yield "static", "", a, 0
    for a, b in itertools.product(ANN, repeat=2):
        if not q or ANN.index(a) % 4 == 0 or ANN.index(b) % 4 == 0:
            yield "function", f"a: {a}, b: {b}", "", 0
    for d in DEFAULTS:
        yield "function", f"a={d}", "", 10
        yield "function", f"a: int = {d}, *, b={d}", "", 10
        yield "bound", f"a={d}", "", 10
    for d, e in itertools.product(DEFAULTS, repeat=2):
        yield "function", f"a={d}, *b, c: int = {e}", "", 10
    for name in ("self", "cls", "_", "__", "__x", "type", "print", "é", "class_", "int", "match", "Any", "args"):
        yield "function", name, "", 10
        yield "function", f"{name}=1", "", 10
        yield "function", f"*{name}", "", 10
        yield "function", f"a, {name}: int", "", 10


def large(tier):
    """Many parameters, long names, annotations and bodies."""
    sizes = [0, 1, 5, 12] if tier == "quick" else [0, 1, 2, 5, 8, 13, 30]
    for po, pk, ko in itertools.product(sizes, repeat=3):
        if po + pk + ko < 5:
            continue
        for star, stars, ann, default in itertools.product((False, True), (False, True), ("", ": int"), ("", "=1")):
            parts = [f"a{i}{ann}{default}" for i in range(po)] + ["/"] * bool(po) + [f"b{i}{ann}{default}" for i in range(pk)]
            parts += ["*args"] if star else ["*"] * bool(ko)
            parts += [f"c{i}{ann}{default}" for i in range(ko)] + ["**kwargs"] * stars
            yield "function" if ann else "bound", ", ".join(parts), "int" if default else "", ("pass", False) if star else ("return 1", True)
    for n in [*range(1, 41), 63, 64, 65, 100, 128, 200, 255, 256, 300]:
        yield "function", ", ".join(f"p{i}" for i in range(n)), "", ("pass", False)
        yield "static", ", ".join(f"p{i}: Custom = None" for i in range(n)), "", ("pass", False)
        yield "renamed lambda", ", ".join(f"p{i}" for i in range(n)), "", ("pass", False)
    for n in [*range(2, 12), 20, 40, 79, 80, 81, 120, 200]:
        yield "function", f"{'a' * n}: int, {'b' * n}: Custom = 1", "", ("pass", False)
        tuples = ", ".join("Tuple[" + ", ".join(["int"] * i) + "]" for i in range(1, n))
        text = "Custom" if n % 2 else "U" * n
        for a in ("List[" * n + "int" + "]" * n, f"Union[{tuples}]", f"Literal[{', '.join(map(repr, range(n)))}]", f"Callable[[{', '.join(['int'] * n)}], str]", " | ".join(f"Literal[{i}]" for i in range(n)), f"Literal[{'x' * n!r}]", repr(text)):
            if n <= 40:
                yield "function", f"a: {a}, b: int", a if n < 20 else "", ("pass", False)
        yield "function", f"a={'x' * n!r}", "", ("pass", False)
        yield "function", f"a={list(range(n))}, b: int={{{', '.join(f'{i}: Custom' for i in range(n))}}}", "", ("pass", False)
        for form in ("function", "static", "async") if n < 20 else ("function",):
            filler = "x = 1\n    " * n
            yield form, "a", "", (filler + "return 1", True)
            yield form, "a", "", (filler + "pass", False)
            yield form, "a", "", ("'''" + "return 1\n    " * n + "'''", False)
            yield form, "a", "", ("# return 1\n    " * n + "pass", False)
        if n < 19:
            nested = "".join(f"if len('a'):\n{' ' * (5 + i)}" for i in range(n))
            yield "function", "a", "", (nested + "return 1", True)
            yield "function", "a", "", (nested + "pass", False)
            inner = "".join(f"def g{i}():\n{' ' * (5 + i)}" for i in range(n))
            yield "function", "a", "", (inner + "return 1", False)
            yield "function", "a", "", (inner + "yield 1", False)
    for text in ("\n        a,\n        b: int,\n    ", "a,  # return 1\n  b=1  # )\n", "\n\n  a = (1,\n   2), *,\n b: List[\n int] = ()\n", "a=')', b='->', c: \"Literal['):']\" = ':'", "a=lambda x=1: x, b=[x for x in (1, 2)]"):
        for form in ("function", "static", "unbound", "async"):
            for body in BODIES[:3] + BODIES[10:12]:
                yield form, text, "", body
                yield form, text, "int", body


def text_of_file(chunk, future=False):
    return ("from __future__ import annotations\n" if future else "") + PRELUDE + "".join(write(*s[:3], body_of(s)[0], k) for k, s in enumerate(chunk))


def body_of(spec):
    return BODIES[spec[3]] if isinstance(spec[3], int) else spec[3]


class Maker:
    """Writes functions to real source files and imports them."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="callables-")
        self.pid = os.getpid()
        self.count = 0

    def module(self, text):
        path = os.path.join(self.root, f"made_{self.count}.py")
        self.count += 1
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        spec = importlib.util.spec_from_file_location(f"made_{self.count}", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    def close(self):
        shutil.rmtree(self.root)


def rich(ns, home):
    import numpy
    import pandas

    out = {**vars(typing), "np": numpy, "pd": pandas, "numpy": numpy, "pandas": pandas, "typing": typing, "collections": __import__("collections"), "re": __import__("re"), "NoneType": type(None), "Ellipsis": ...}
    out.update({k: v for k, v in vars(home).items() if not k.startswith("__")} if home is not None else {})
    if home is not None and hasattr(home, "Custom"):
        out["Inner"] = home.Custom.Inner
    out.update({k: v for k, v in ns.items() if not k.startswith("__")})
    return out


def resolve(annotation, names):
    """The object an annotation stands for, or its text."""
    for _ in range(4):
        if isinstance(annotation, typing.ForwardRef):
            annotation = annotation.__forward_arg__
        if not isinstance(annotation, str):
            break
        try:
            annotation = eval(annotation, dict(names))
        except Exception:  # noqa: BLE001
            return annotation.strip()
    if annotation is type(None):
        return None

    def f():
        pass

    f.__annotations__ = {"x": annotation}
    try:
        return typing.get_type_hints(f, globalns=dict(names), include_extras=True)["x"]
    except Exception:  # noqa: BLE001
        return annotation


def same(a, b, names):
    x, y = resolve(a, names), resolve(b, names)
    if isinstance(x, typing.TypeVar):
        return x.__name__ == (y if isinstance(y, str) else getattr(y, "__name__", None))
    if isinstance(x, str) or isinstance(y, str):
        tx = x if isinstance(x, str) else getattr(x, "__name__", repr(x))
        ty = y if isinstance(y, str) else getattr(y, "__name__", repr(y))
        if "." in str(getattr(x, "__qualname__", "")):
            return ty in (tx, x.__qualname__)
        return tx == ty or tx.split("[")[0].split(".")[-1] == ty.split("[")[0].split(".")[-1]
    if x == y and repr(x) == repr(y):
        return True
    if x is None and y is type(None) or x is type(None) and y is None:
        return True
    try:
        return x == y
    except Exception:  # noqa: BLE001
        return False


def parameters(node):
    """[(name, kind, annotation node, has default)] of an ast.arguments."""
    a = node
    out = []
    pos = a.posonlyargs + a.args
    first_default = len(pos) - len(a.defaults)
    for i, x in enumerate(pos):
        out.append((x.arg, "po" if i < len(a.posonlyargs) else "pk", x.annotation, i >= first_default))
    if a.vararg:
        out.append((a.vararg.arg, "va", a.vararg.annotation, False))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((x.arg, "ko", x.annotation, d is not None))
    if a.kwarg:
        out.append((a.kwarg.arg, "vk", a.kwarg.annotation, False))
    return out


KIND = {inspect.Parameter.POSITIONAL_ONLY: "po", inspect.Parameter.POSITIONAL_OR_KEYWORD: "pk", inspect.Parameter.VAR_POSITIONAL: "va", inspect.Parameter.KEYWORD_ONLY: "ko", inspect.Parameter.VAR_KEYWORD: "vk"}


def why_not_protocol(f, cls, ns, home, only_none):
    """(reason or None, whether the protocol's call lacks its own self)"""
    calls = [n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == "__call__"]
    if len(calls) != 1:
        return f"{len(calls)} __call__ methods", False
    call = calls[0]
    try:
        sig = inspect.signature(f)
    except (ValueError, TypeError):
        return "the callable cannot be inspected but has a protocol", False
    names = rich(ns, home)
    want = [(p.name, KIND[p.kind], p.annotation, p.default is not inspect.Parameter.empty) for p in sig.parameters.values()]
    have = parameters(call.args)

    def mismatch(have):
        if [x[:2] + x[3:] for x in have] != [x[:2] + x[3:] for x in want]:
            return f"parameters {[x[:2] + x[3:] for x in have]}, the callable has {[x[:2] + x[3:] for x in want]}"
        for h, w in zip(have, want):
            if w[2] is inspect.Parameter.empty:
                if h[2] is not None:
                    return f"parameter {h[0]} is annotated {ast.unparse(h[2])}, the callable's is not"
            elif h[2] is None:
                return f"parameter {h[0]} lost its annotation {w[2]!r}"
            else:
                text = h[2].value if isinstance(h[2], ast.Constant) and isinstance(h[2].value, str) else ast.unparse(h[2])
                if not same(w[2], text, names):
                    return f"parameter {h[0]} is annotated {text}, the callable's is {w[2]!r}"
        return None

    selfless = True
    r = mismatch(have)
    if r and have and have[0][1] in ("po", "pk") and have[0][2] is None and not have[0][3]:
        if mismatch(have[1:]) is None:
            r, selfless = None, False
    if r:
        return r, selfless
    if call.returns is None:
        return "no return annotation", selfless
    text = call.returns.value if isinstance(call.returns, ast.Constant) and isinstance(call.returns.value, str) else ast.unparse(call.returns)
    if sig.return_annotation is not inspect.Signature.empty:
        if not same(sig.return_annotation, text, names):
            return f"returns {text}, the callable {sig.return_annotation!r}", selfless
    elif text in ("None", "NoneType"):
        if not only_none:
            return "promises None but the callable can return something else", selfless
    elif resolve(text, names) is not typing.Any:
        return f"returns {text} although the callable is not annotated", selfless
    return None, selfless


def inspectable(f):
    try:
        inspect.signature(f)
        return True
    except (ValueError, TypeError):
        return False


def judge_value(case, rep, value, fs, home, only_none):
    """fs: the callables somewhere in value."""
    text = gen.text_of(value, case["config"])
    rep.seen("outcomes", text)
    mod = oracle.module(text)
    ir = mod.ir("X")
    protocols = [n for n in mod.tree.body if isinstance(n, ast.ClassDef) and any("Protocol" in ast.unparse(b) for b in n.bases)]
    calls = [n[1] for n in oracle.nodes(ir) if n[0] == "call"]
    if not any(n[0] in ("call", "callr", "proto") for n in oracle.nodes(ir)):
        rep.violation(case, "kind", f"described by {oracle.canon(ir)}")
        return
    for f, none in zip(fs, only_none):
        if not inspectable(f):
            if None not in calls:
                rep.violation(case, "general", "a callable that cannot be inspected is not described by the general callable type")
            continue
        if getattr(f, "__name__", "") == "<lambda>":
            n = len(inspect.signature(f).parameters)
            if n not in calls:
                rep.violation(case, "lambda", f"a lambda of {n} parameters is described by callables of {calls}")
            continue
        reasons = [why_not_protocol(f, p, mod.ns, home, none) for p in protocols]
        good = [selfless for r, selfless in reasons if r is None]
        if not good:
            rep.violation(case, "signature", reasons[0][0] if reasons else f"no protocol for {f!r}: {oracle.canon(ir)}")
        elif all(good):
            rep.violation(case, "self", "the protocol's __call__ does not have a self parameter before those of the callable", site="protocol-call-without-self")


def only_none_of(spec):
    form = spec[0]
    if form in ("async", "wraps", "plain decorator", "renamed lambda", "lambda as method"):
        return False
    if form == "quiet decorator":
        return True
    return not body_of(spec)[1]


PAIRS = [("function", p, r, b) for p in ["", "a", "b", "a: int", "a: str", "a=1", "a=None", "a, b", "*a", "**a", "*, a", "a, /", "a: 'Custom'"] for r, b in [("", 0), ("", 10), ("int", 10), ("None", 0)]]
MANY = [f"lambda {', '.join(f'p{i}' for i in range(n))}: 1" for n in range(3, 25)] + [f"lambda {', '.join(f'p{i}=1' for i in range(n))}, *a, **k: 1" for n in (5, 10, 20)]
LAMBDAS = ["lambda: 1", "lambda a: a", "lambda b: b", "lambda a, b: a", "lambda a=1: a", "lambda *a: a", "lambda a, *, b: a", "lambda a, /, b, *c, d=1, **e: a", "lambda **k: k"]
ODD = ["len", "print", "abs", "dict.fromkeys", "[].append", "''.join", "{}.get", "min", "max", "iter", "getattr", "sum", "sorted", "open", "np.array", "np.zeros", "math.sin", "Custom.cmeth", "Custom().meth", "Custom.__dict__['cmeth']", "Custom.__dict__['smeth']", "int.from_bytes", "object.__new__", "pd.DataFrame().head", "pd.read_csv", "(1).bit_length", "classmethod(len)", "staticmethod(len)", "staticmethod(fn_plain)", "classmethod(fn_plain)"]
MODULES = ["ast", "base64", "bisect", "calendar", "collections", "contextlib", "copy", "csv", "dataclasses", "datetime", "difflib", "enum", "functools", "glob", "heapq", "html", "inspect", "itertools", "json", "keyword", "linecache", "locale", "logging", "math", "operator", "os", "os.path", "pathlib", "pickle", "pprint", "random", "re", "shlex", "shutil", "string", "struct", "subprocess", "tempfile", "textwrap", "threading", "time", "tokenize", "traceback", "types", "typing", "unittest", "urllib.parse", "uuid", "warnings", "weakref", "zipfile", "numpy", "pandas", "yaml"]


def library(tier):
    for m in MODULES if tier != "quick" else MODULES[::2]:
        module = importlib.import_module(m)
        for name in sorted(vars(module)):
            f = getattr(module, name)
            if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
                yield m, name
            elif isinstance(f, type) and tier != "quick":
                for k, v in sorted(vars(f).items(), key=lambda kv: kv[0]):
                    if isinstance(v, (types.FunctionType, staticmethod, classmethod, types.BuiltinFunctionType)):
                        yield m, f"{name}.__dict__[{k!r}]"


def can_return(f):
    """Whether a library function may return something (from its source)."""
    if hasattr(f, "__wrapped__") or not isinstance(f, (types.FunctionType, types.MethodType)):
        return True
    code = f.__code__
    if code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR):
        return True
    import dis

    last = None
    for i in dis.get_instructions(code):
        if i.opname == "RETURN_VALUE" or i.opname == "RETURN_CONST" and i.argval is not None:
            if not (i.opname == "RETURN_VALUE" and last is not None and last.opname == "LOAD_CONST" and last.argval is None):
                return True
        last = i
    return False


def judge_library(case, rep):
    module = importlib.import_module(case["module"])
    name = case["name"]
    f = eval(f"module.{name}") if ".__dict__" in name else getattr(module, name)
    home = importlib.import_module(f.__module__) if isinstance(getattr(f, "__module__", None), str) and f.__module__ in __import__("sys").modules else module
    judge_value(case, rep, f, [f], home, [not can_return(f)])


def judge_expr(case, rep):
    value = world.build(case["value"])
    fs = value if isinstance(value, list) else list(value.values()) if isinstance(value, dict) else [value]
    judge_value(case, rep, value, fs, None, [True if isinstance(f, types.FunctionType) and f.__name__ == "fn_none" else False for f in fs])


SHAPES = {"[]": lambda fs: list(fs), "{}": lambda fs: {f"k{i}": f for i, f in enumerate(fs)}, "()": lambda fs: tuple(fs), "td list": lambda fs: [{"f": f} for f in fs]}


def cases(tier):
    out = [{"spec": list(s), "config": {}} for s in dict.fromkeys([*specs(tier), *large(tier)])]
    chosen = [PAIRS[k * 5 % len(PAIRS)] for k in range(12)]
    out += [{"specs": [list(s) for s in chosen[:n]], "shape": shape, "config": {}} for n in range(3, 13) for shape in SHAPES]
    out += [{"specs": [list(a), list(b)], "shape": shape, "config": {}} for a, b in itertools.product(PAIRS if tier != "quick" else PAIRS[::2], repeat=2) for shape in (SHAPES if tier != "quick" else ["[]", "{}"])]
    return out


def expr_cases(tier):
    pool = LAMBDAS + ODD + ["fn_plain", "fn_none", "fn_any", "fn_args"]
    for e in pool:
        yield {"value": e, "config": {}}
        for w in (f"[{e}]", f"{{'a': {e}}}", f"{{1: {e}}}"):
            yield {"value": w, "config": {}}
            yield {"value": w, "config": {"min_height_to_define_type_alias": 3, "dict_strategy": "dict"}}
    for e in MANY:
        yield {"value": e, "config": {}}
        yield {"value": f"[{e}, len]", "config": {}}
        yield {"value": f"{{'a': {e}}}", "config": {}}
    for a, b in itertools.product(pool, repeat=2):
        yield {"value": f"[{a}, {b}]", "config": {}}
        if tier != "quick":
            yield {"value": f"{{'a': {a}, 'b': {b}}}", "config": {}}


def run(tier):
    everything = cases(tier)
    exprs = list(expr_cases(tier)) + [{"module": m, "name": n, "config": {}} for m, n in library(tier)]

    def work(_, i, n, rep):
        maker = Maker()
        mine = everything[i::n]
        for start in range(0, len(mine), 200):
            chunk = mine[start : start + 200]
            for future in (False, True):
                run_chunk(maker, chunk, future, rep)
        for case in exprs[i::n]:
            rep.count("executions")
            rep.seen("states", repr(case))
            termcheck.guarded(judge_library if "module" in case else judge_expr, case, rep)
        maker.close()

    rep = runner.parallel(work, None)
    return rep, {
        "states": len(rep.sets["states"]),
        "transitions": len(rep.sets["states"]),
        "traces_validated_against_impl": rep.counts["executions"],
        "distinct_outcomes": len(rep.sets["outcomes"]),
        "rule": "every parameter list up to a length over all kinds, defaults and annotations, in every form a callable takes; every body, annotation (pairs), default (pairs) and parameter name of the alphabets; up to 300 parameters, long names, annotations, defaults and bodies; pairs of callables in containers, and up to 12; every callable of the listed library modules; functions live in real source files, with and without postponed annotations",
        "exhaustive": True,
    }


def run_chunk(maker, chunk, future, rep):
    flat = []
    for case in chunk:
        flat += [tuple(s) for s in case.get("specs", [case.get("spec")])]
    usable = flat
    m = maker.module(text_of_file(usable, future))
    k = 0
    for case in chunk:
        specs_ = [tuple(s) for s in case.get("specs", [case.get("spec")])]
        fs = [getattr(m, f"T{k + j}") for j in range(len(specs_))]
        k += len(specs_)
        c = {**case, "future": future}
        rep.count("executions")
        rep.seen("states", repr(c))
        if rep.counts["executions"] % 997 == 1:
            rep.sample(c)
        value = fs[0] if "spec" in case else SHAPES[case["shape"]](fs)
        termcheck.guarded(lambda c, r: judge_value(c, r, value, fs, m, [only_none_of(s) for s in specs_]), c, rep)


def replay(case, rep):
    if "module" in case:
        termcheck.guarded(judge_library, case, rep)
    elif "value" in case:
        termcheck.guarded(judge_expr, case, rep)
    else:
        maker = Maker()
        run_chunk(maker, [case], case["future"], rep)
        maker.close()
