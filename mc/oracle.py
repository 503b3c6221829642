"""The oracle: executes generated modules and relates values to the run-time
typing objects those modules bind.

Types are turned into a small structural IR (tuples), independent of how the
text is laid out:

 ('any',) ('object',) ('none',) ('cls', class) ('fwd', name)
 ('union', frozenset of IR) ('list', t) ('seq', t) ('tuple', (t, ...))
 ('vtuple', t) ('set', t) ('fset', t) ('dict', k, v) ('map', k, v)
 ('mproxy', k, v) ('iter', t) ('type', t) ('ndarray', class)
 ('series', t) ('td', ((key, t, required, readonly), ...)) ('call', n|None)
 ('proto', signature text) ('df', ((label, t), ...), literals, scalars, wide) ('module',) ('textio',) ('binio',)
"""
import ast
import builtins
import collections.abc
import io
import re
import types
import typing
from functools import lru_cache

import numpy as np
import pandas as pd
import typing_extensions as te

from . import world

NoneType = type(None)


class SeriesAlias:
    """Stand-in for pd.Series[T], which real pandas cannot evaluate."""

    def __init__(self, item):
        self.item = item

    def __hash__(self):
        return hash(("SeriesAlias", repr(self.item)))

    def __eq__(self, other):
        return isinstance(other, SeriesAlias) and repr(self.item) == repr(other.item)

    def __call__(self):  # typing only accepts callables as type arguments
        raise TypeError

    def __repr__(self):
        return f"Series[{self.item!r}]"


def install_series_shim():
    pd.Series.__class_getitem__ = classmethod(lambda cls, item: SeriesAlias(item))


class Bad(Exception):
    """The generated module is not what it must be (kind, detail)."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Module:
    """An executed generated module."""

    def __init__(self, text):
        self.text = text
        try:
            self.tree = ast.parse(text)
        except (SyntaxError, ValueError) as e:
            raise Bad("syntax", f"{type(e).__name__}: {e}") from None
        self.ns = {"__name__": "generated_module"}
        try:
            exec(compile(self.tree, "<generated>", "exec"), self.ns)
        except Exception as e:  # noqa: BLE001
            raise Bad("import", f"{type(e).__name__}: {e}") from None
        self.declared = {}  # name -> list of statement nodes, in order
        for node in self.tree.body:
            for name in declared_names(node):
                self.declared.setdefault(name, []).append(node)
        self._ir = {}

    def ir(self, name):
        if name not in self._ir:
            if name not in self.ns:
                raise Bad("unbound", f"{name} is not bound")
            self._ir[name] = Conv(self.ns, self.tree).conv(self.ns[name])
        return self._ir[name]


def declared_names(node):
    if isinstance(node, ast.ClassDef):
        return [node.name]
    if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
        return [node.target.id]
    if isinstance(node, ast.Assign):
        return [t.id for t in node.targets if isinstance(t, ast.Name)]
    return []


@lru_cache(maxsize=60000)
def _module(text):
    try:
        return Module(text)
    except Bad as b:
        return b


def module(text):
    m = _module(text)
    if isinstance(m, Bad):
        raise Bad(m.kind, m.detail)
    return m


class Conv:
    def __init__(self, ns, tree=None):
        self.ns = ns
        self.tree = tree
        self.stack = []

    def conv(self, tp):
        if tp is None or tp is NoneType:
            return ("none",)
        if isinstance(tp, typing.ForwardRef):
            return self.conv(tp.__forward_arg__)
        if isinstance(tp, str):
            return self.text(tp)
        if tp is typing.Any:
            return ("any",)
        if tp is object:
            return ("object",)
        if isinstance(tp, SeriesAlias):
            return ("series", self.series_item(tp.item))
        if tp is typing.TextIO:
            return ("textio",)
        if tp is typing.BinaryIO:
            return ("binio",)
        if tp is types.ModuleType:
            return ("module",)
        origin = typing.get_origin(tp)
        args = typing.get_args(tp)
        if tp is typing.Callable or (origin is collections.abc.Callable and not args):
            return ("call", None)
        if origin is collections.abc.Callable:
            ret = self.conv(args[1])
            return ("call", len(args[0]) if args[0] is not Ellipsis else None) if ret == ("any",) else ("callr", tuple(map(self.conv, args[0])), ret)
        if origin is typing.Union or isinstance(tp, types.UnionType):
            return union(self.conv(a) for a in args)
        if origin in (te.NotRequired, te.Required, te.ReadOnly):
            raise Bad("marker", f"{tp} outside a TypedDict field")
        one = {list: "list", collections.abc.Sequence: "seq", set: "set", frozenset: "fset", collections.abc.Iterator: "iter", type: "type"}
        if origin in one:
            if len(args) != 1:
                raise Bad("arity", repr(tp))
            return (one[origin], self.conv(args[0]))
        two = {dict: "dict", collections.abc.Mapping: "map", types.MappingProxyType: "mproxy"}
        if origin in two:
            if len(args) != 2:
                raise Bad("arity", repr(tp))
            return (two[origin], self.conv(args[0]), self.conv(args[1]))
        if origin is tuple:
            if len(args) == 2 and args[1] is Ellipsis:
                return ("vtuple", self.conv(args[0]))
            if Ellipsis in args:
                raise Bad("arity", repr(tp))
            return ("tuple", tuple(self.conv(a) for a in args))
        if origin is np.ndarray:
            return ("ndarray", typing.get_args(args[1])[0])
        if origin is typing.Literal or origin is te.Literal:
            return ("literal", tuple(args))
        if isinstance(tp, type):
            if typing.is_typeddict(tp):
                return self.td(tp)
            if getattr(tp, "_is_protocol", False):
                return self.proto(tp)
            if issubclass(tp, pd.DataFrame) and tp is not pd.DataFrame:
                return self.df(tp)
            return ("cls", tp)
        raise Bad("type", f"unexpected type object {tp!r}")

    def series_item(self, item):
        if isinstance(item, tuple):
            raise Bad("arity", f"Series[{item}]")
        return self.conv(item)

    def text(self, s):
        """A quoted annotation."""
        try:
            tree = ast.parse(s, mode="eval")
        except SyntaxError:
            raise Bad("syntax", f"quoted annotation {s!r}") from None
        if isinstance(tree.body, ast.Name) and s not in self.ns and (s == world.Alarm.__name__ or not hasattr(builtins, s)):
            return ("fwd", s)
        try:
            val = eval(s, self.ns)
        except Exception as e:  # noqa: BLE001
            raise Bad("quoted", f"annotation {s!r} does not evaluate: {type(e).__name__}: {e}") from None
        return self.conv(val)

    def td(self, tp):
        if tp in self.stack:
            raise Bad("recursive", f"TypedDict {tp.__name__} contains itself")
        self.stack.append(tp)
        fields = []
        for key, ann in tp.__annotations__.items():
            required, readonly = True, False
            ann2 = ann
            while True:
                if isinstance(ann2, typing.ForwardRef):
                    ann2 = ann2.__forward_arg__
                if isinstance(ann2, str):
                    if re.match(r"\w+\[", ann2):
                        try:
                            ann2 = eval(ann2, self.ns)
                        except Exception as e:  # noqa: BLE001
                            raise Bad("quoted", f"annotation {ann2!r} does not evaluate: {type(e).__name__}: {e}") from None
                        continue
                    break
                o = typing.get_origin(ann2)
                if o is te.NotRequired:
                    required = False
                elif o is te.ReadOnly:
                    readonly = True
                elif o is te.Required:
                    required = True
                else:
                    break
                ann2 = typing.get_args(ann2)[0]
            fields.append((key, self.conv(ann2), required, readonly))
        if not getattr(tp, "__total__", True):
            raise Bad("total", f"TypedDict {tp.__name__} is not total")
        self.stack.pop()
        return ("td", tuple(sorted(fields)))

    def proto(self, tp):
        import inspect

        return ("proto", str(inspect.signature(tp.__dict__["__call__"])))

    def df(self, tp):
        from . import frames

        return frames.convert(self, tp)


def union(members):
    out = set()
    for m in members:
        if m[0] == "union":
            out |= m[1]
        else:
            out.add(m)
    # Optional[object] is how the type of None is written; with object in a
    # union nothing but None may rely on it.
    if ("object",) in out and ("none",) in out:
        out.discard(("object",))
    if len(out) == 1:
        return next(iter(out))
    return ("union", frozenset(out))


def canon(ir):
    """Canonical text (stable across processes)."""
    k = ir[0]
    if k == "union":
        return "U(" + "|".join(sorted(canon(m) for m in ir[1])) + ")"
    if k == "td":
        return "TD{" + ",".join(f"{key!r}{'' if r else '?'}{'!' if ro else ''}:{canon(t)}" for key, t, r, ro in ir[1]) + "}"
    if k == "tuple":
        return "tuple(" + ",".join(canon(t) for t in ir[1]) + ")"
    if k in ("cls", "ndarray"):
        return f"{k}:{getattr(ir[1], '__name__', ir[1])}"
    if k == "df":
        return "DF{" + ",".join(f"{label}:{canon(t)}" for label, t in ir[1]) + f"|{ir[2:]}" + "}"
    if k in ("fwd", "call", "proto", "literal", "callr"):
        return f"{k}:{ir[1:]}"
    return k + "(" + ",".join(canon(t) for t in ir[1:]) + ")"


def promote(ir):
    """Drop int next to float in unions (numeric tower), recursively."""
    return walk(ir, lambda x: union(m for m in x[1] if not (m == ("cls", int) and ("cls", float) in x[1])) if x[0] == "union" else x)


def walk(ir, f):
    """Rebuild an IR bottom-up, applying f to every node."""
    k = ir[0]
    if k == "union":
        return f(union(walk(m, f) for m in ir[1]))
    if k == "tuple":
        return f(("tuple", tuple(walk(t, f) for t in ir[1])))
    if k == "td":
        return f(("td", tuple((key, walk(t, f), r, ro) for key, t, r, ro in ir[1])))
    if k == "df":
        return f(("df", tuple((label, walk(t, f)) for label, t in ir[1]), *ir[2:]))
    if k in ("list", "seq", "vtuple", "set", "fset", "dict", "map", "mproxy", "iter", "type", "series"):
        return f((k,) + tuple(walk(t, f) for t in ir[1:]))
    return f(ir)


def nodes(ir):
    """All sub-IR, including itself, union members included."""
    yield ir
    k = ir[0]
    if k == "union":
        for m in ir[1]:
            yield from nodes(m)
    elif k == "tuple":
        for t in ir[1]:
            yield from nodes(t)
    elif k == "td":
        for _, t, _, _ in ir[1]:
            yield from nodes(t)
    elif k == "df":
        for _, t in ir[1]:
            yield from nodes(t)
    elif k in ("list", "seq", "vtuple", "set", "fset", "dict", "map", "mproxy", "iter", "series"):
        for t in ir[1:]:
            yield from nodes(t)


# --------------------------------------------------------------------------
# Soundness


def mro_names(cls):
    return {c.__name__ for c in cls.__mro__}


def first(it, limit):
    lst = list(it)
    return lst if not limit else lst[:limit]


class Ctx:
    """limit: inspection limit; td_mode: TypedDict strategy in force; frames:
    hook deciding data frame types."""

    def __init__(self, mod, limit=500, td_mode=True):
        self.mod, self.limit, self.td_mode = mod, limit, td_mode

    def items(self, d):
        if isinstance(d, dict) and self.td_mode:
            return list(d.items())
        return first(d.items(), self.limit)


def why_not(v, ir, ctx, path="value"):
    """None if v conforms to ir, else an explanation."""
    k = ir[0]

    def no(msg=None):
        return f"{path}: {short(v)} is not {msg or canon(ir)}"

    if k == "any":
        return None
    if k == "object":
        return None
    if k == "none":
        return None if v is None else no()
    if k == "union":
        reasons = [why_not(v, m, ctx, path) for m in sorted(ir[1], key=canon)]
        return None if any(r is None for r in reasons) else no() + f" ({reasons[0]})"
    if k == "cls":
        c = ir[1]
        if isinstance(v, c):
            return None
        if c is float and isinstance(v, int):
            return None
        return no()
    if k == "fwd":
        return None if ir[1] in mro_names(type(v)) else no()
    if k == "type":
        if not isinstance(v, type):
            return no()
        inner = ir[1]
        if inner[0] == "any":
            return None
        if inner[0] == "fwd":
            return None if inner[1] in mro_names(v) else no()
        if inner[0] == "none":
            return None if v is NoneType else no()
        if inner[0] == "object":
            return None
        if inner[0] == "cls":
            return None if issubclass(v, inner[1]) else no()
        if inner[0] == "union":
            return None if any(why_not(v, ("type", m), ctx, path) is None for m in inner[1]) else no()
        return no()
    if k in ("list", "seq", "set", "fset", "iter", "series"):
        base = {
            "list": list,
            "seq": collections.abc.Sequence,
            "set": set,
            "fset": frozenset,
            "iter": collections.abc.Iterator,
            "series": pd.Series,
        }[k]
        if not isinstance(v, base):
            return no()
        if k == "seq" and isinstance(v, (str, bytes, tuple)):
            return no()
        elems = peek(v, ctx.limit)
        for i, e in enumerate(elems):
            r = why_not(e, ir[1], ctx, f"{path}[{i}]")
            if r:
                return r
        return None
    if k in ("tuple", "vtuple"):
        if not isinstance(v, tuple):
            return no()
        elems = first(v, ctx.limit)
        if k == "tuple" and len(elems) != len(ir[1]):
            return no(f"a tuple of {len(ir[1])}")
        for i, e in enumerate(elems):
            r = why_not(e, ir[1][i] if k == "tuple" else ir[1], ctx, f"{path}[{i}]")
            if r:
                return r
        return None
    if k in ("dict", "map", "mproxy"):
        base = {"dict": dict, "map": collections.abc.Mapping, "mproxy": types.MappingProxyType}[k]
        if not isinstance(v, base):
            return no()
        for kk, e in ctx.items(v):
            r = why_not(kk, ir[1], ctx, f"{path} key") or why_not(e, ir[2], ctx, f"{path}[{kk!r}]")
            if r:
                return r
        return None
    if k == "td":
        if not isinstance(v, dict):
            return no()
        fields = {key: (t, req) for key, t, req, _ in ir[1]}
        for kk in v:
            if not isinstance(kk, str) or kk not in fields:
                return f"{path}: key {kk!r} is not declared in {canon(ir)}"
        for key, (t, req) in fields.items():
            if key not in v:
                if req:
                    return f"{path}: required key {key!r} is missing"
                continue
            r = why_not(v[key], t, ctx, f"{path}[{key!r}]")
            if r:
                return r
        return None
    if k == "ndarray":
        return None if isinstance(v, np.ndarray) and issubclass(v.dtype.type, ir[1]) else no()
    if k == "module":
        return None if isinstance(v, types.ModuleType) else no()
    if k == "textio":
        return None if isinstance(v, io.TextIOBase) else no()
    if k == "binio":
        return None if isinstance(v, io.IOBase) and not isinstance(v, io.TextIOBase) else no()
    if k in ("call", "proto", "callr"):
        return None if callable(v) or isinstance(v, classmethod) else no()
    if k == "df":
        from . import frames

        return frames.why_not(v, ir, ctx, path)
    return f"{path}: unknown type {ir}"


def peek(v, limit):
    """Elements of a container; an iterator is read once and remembered, so
    the oracle can look at it repeatedly."""
    if isinstance(v, collections.abc.Iterator):
        key = id(v)
        if key not in _peeked or _peeked[key][0] is not v:
            lst = []
            for e in v:
                lst.append(e)
                if len(lst) >= 2000:
                    break
            _peeked[key] = (v, lst)
        return first(_peeked[key][1], limit)
    return first(v, limit)


_peeked = {}


def short(v):
    s = repr(v)
    s = re.sub(r" at 0x[0-9a-f]+", "", s)
    return s if len(s) < 80 else s[:77] + "..."


# --------------------------------------------------------------------------
# Tightness


def subsets(vals):
    yield vals
    n = len(vals)
    if n > 1:
        for v in vals:
            yield [v]
    if 2 < n <= 5:
        for mask in range(1, 2**n - 1):
            s = [vals[i] for i in range(n) if mask >> i & 1]
            if len(s) > 1:
                yield s
    elif n > 5:
        for i in range(min(n, 12)):
            for j in range(i + 1, min(n, 12)):
                yield [vals[i], vals[j]]


def excess(ir, vals, ctx, path="type"):
    """None if every part of ir is witnessed by vals, else an explanation."""
    k = ir[0]
    if not vals:
        return None if k == "any" else f"{path}: {canon(ir)} describes nothing in the value"

    if k == "any":
        return f"{path}: Any although there is {short(vals[0])}"
    if k == "object":
        return f"{path}: object although there is {short(vals[0])}"
    if k == "none":
        return None if any(v is None for v in vals) else f"{path}: None is not in the value"
    if k == "union":
        for m in sorted(ir[1], key=canon):
            mine = [v for v in vals if why_not(v, m, ctx) is None]
            if m == ("cls", float):
                mine = [v for v in vals if isinstance(v, float)]
            if not mine:
                return f"{path}: union member {canon(m)} has no witness"
            reasons = []
            for s in subsets(mine):
                r = excess(m, s, ctx, path + "|")
                if r is None:
                    break
                reasons.append(r)
            else:
                return reasons[0]
        return None
    if k == "cls":
        c = ir[1]
        if any(type(v) is c for v in vals):
            return None
        return f"{path}: no value is exactly {c.__name__}"
    if k == "fwd":
        return None if any(type(v).__name__ == ir[1] for v in vals) else f"{path}: no value is exactly {ir[1]}"
    if k == "type":
        inner = ir[1]
        name = inner[1] if inner[0] == "fwd" else getattr(inner[1], "__name__", None) if inner[0] == "cls" else {"none": "NoneType", "object": "object"}.get(inner[0])
        return None if any(isinstance(v, type) and v.__name__ == name for v in vals) else f"{path}: {canon(ir)} names no class in the value"
    if k in ("list", "seq", "vtuple", "set", "fset", "iter", "series"):
        elems = [e for v in vals for e in peek(v, ctx.limit)]
        return excess(ir[1], elems, ctx, f"{path}.{k}")
    if k == "tuple":
        for v in vals:
            if len(first(v, ctx.limit)) != len(ir[1]):
                return f"{path}: tuple size"
        for i, t in enumerate(ir[1]):
            # dicts merged within one tuple share their TypedDict
            shared = [j for j, o in enumerate(ir[1]) if o == t] if "td" in {n[0] for n in nodes(t)} else [i]
            r = excess(t, [v[j] for v in vals for j in shared], ctx, f"{path}.{i}")
            if r:
                return r
        return None
    if k in ("dict", "map", "mproxy"):
        its = [it for v in vals for it in ctx.items(v)]
        return excess(ir[1], [a for a, _ in its], ctx, f"{path}.key") or excess(ir[2], [b for _, b in its], ctx, f"{path}.value")
    if k == "td":
        for key, t, req, _ in ir[1]:
            mine = [v[key] for v in vals if key in v]
            if not mine:
                return f"{path}: field {key!r} is in no value"
            if not req and len(mine) == len(vals):
                return f"{path}: field {key!r} is optional but always present"
            r = excess(t, mine, ctx, f"{path}.{key}")
            if r:
                return r
        return None
    if k == "ndarray":
        return None if any(v.dtype.type is ir[1] for v in vals) else f"{path}: no array of {ir[1].__name__}"
    if k == "df":
        from . import frames

        return frames.excess(ir, vals, ctx, path)
    return None
