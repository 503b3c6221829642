"""Generated data frame classes.

IR: ('df', ((label, type), ...), literals, scalars, wide)
 label     (type name, repr) of each typed access, in the order declared
 literals  labels the untyped variants accept as literals
 scalars   other scalar types any variant accepts ('str', 'Hashable', ...)
 wide      the scalar types an @overload-ed untyped variant accepts
"""
import ast
import typing

import numpy as np
import pandas as pd


def label_of(x):
    for base in (bool, int, str):  # A literal stands for the labels of the subclasses that are equal to it
        if isinstance(x, base):
            return base.__name__, base.__repr__(x)
    return type(x).__name__, repr(x)


def flatten(tp):
    import types

    if typing.get_origin(tp) in (typing.Union, types.UnionType):
        for a in typing.get_args(tp):
            yield from flatten(a)
    elif isinstance(tp, typing.ForwardRef):
        yield tp.__forward_arg__
    else:
        yield tp


def scalars_of(tp):
    """(literal labels, names of other types that admit a scalar label)"""
    literals, others = [], []
    for t in flatten(tp):
        origin = typing.get_origin(t)
        if origin is typing.Literal:
            literals += [label_of(x) for x in typing.get_args(t)]
        elif origin in (list, np.ndarray, tuple, set, dict) or t in (pd.DataFrame, pd.Index, pd.Series, list, slice) or "Series" in repr(t) or type(t).__name__ == "SeriesAlias":
            continue
        else:
            others.append(getattr(t, "__name__", None) or str(t))
    return literals, others


def convert(conv, tp):
    from .oracle import Bad

    nodes = [n for n in conv.tree.body if isinstance(n, ast.ClassDef) and n.name == tp.__name__]
    if len(nodes) != 1:
        raise Bad("ambiguous", f"{len(nodes)} declarations of {tp.__name__}")
    if tp in conv.stack:
        raise Bad("recursive", f"data frame {tp.__name__} contains itself")
    conv.stack.append(tp)

    def value(node):
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            node = ast.parse(node.value, mode="eval").body
        try:
            return eval(compile(ast.Expression(node), "<annotation>", "eval"), conv.ns)
        except Exception as e:  # noqa: BLE001
            raise Bad("annotation", f"{ast.unparse(node)} does not evaluate: {type(e).__name__}: {e}") from None

    accesses, literals, scalars, wide = [], [], set(), set()
    for f in nodes[0].body:
        if not (isinstance(f, ast.FunctionDef) and f.name == "__getitem__"):
            continue
        args = f.args.args
        if len(args) != 2 or args[1].annotation is None or f.returns is None:
            raise Bad("signature", f"__getitem__ of {tp.__name__}: {ast.unparse(f.args)}")
        overloaded = any(ast.unparse(d).split(".")[-1] == "overload" for d in f.decorator_list)
        lits, others = scalars_of(value(args[1].annotation))
        if overloaded and lits and not others and len(list(flatten(value(args[1].annotation)))) == 1:
            ret = conv.conv(value(f.returns))
            accesses += [(x, ret) for x in lits]
            continue
        literals += lits
        scalars |= set(others)
        if overloaded:
            wide |= set(others)
    conv.stack.pop()
    return ("df", tuple(accesses), tuple(sorted(set(literals))), tuple(sorted(scalars)), tuple(sorted(wide)))


def labels(v):
    """Distinct top-level labels, in order."""
    out = {}
    for c in v.columns:
        top = c[0] if isinstance(v.columns, pd.MultiIndex) else c
        out.setdefault(label_of(top), top)
    return out


def why_not(v, ir, ctx, path):
    from . import oracle

    if not isinstance(v, pd.DataFrame):
        return f"{path}: {oracle.short(v)} is no data frame"
    have = labels(v)
    for label, t in ir[1]:
        if label not in have:
            return f"{path}: no column {label[1]}"
        r = oracle.why_not(v[have[label]], t, ctx, f"{path}[{label[1]}]")
        if r:
            return r
    return None


def excess(ir, vals, ctx, path):
    from . import oracle

    mine = [v for v in vals if isinstance(v, pd.DataFrame) and set(labels(v)) == {label for label, _ in ir[1]}]
    if not mine:
        return f"{path}: no data frame with columns {[label[1] for label, _ in ir[1]]}"
    for label, t in ir[1]:
        r = oracle.excess(t, [v[labels(v)[label]] for v in mine], ctx, f"{path}[{label[1]}]")
        if r:
            return r
    return None


PLAIN = ("cls", pd.DataFrame)


def exact(v, ir, ctx, strategy, parent=None, path="frame"):
    """None if ir describes v exactly as promised, else an explanation."""
    from . import oracle

    have = labels(v)
    kinds = [isinstance(x, (str, bool, int)) for x in have.values()]
    plain = strategy == "Do not type hint columns" or not all(kinds) or not have
    if parent is not None and list(parent.columns) == list(v.columns):
        plain = True  # repeated labels, already given by the parent
    if plain:
        return None if ir == PLAIN else f"{path}: a plain data frame is described by {oracle.canon(ir)}"
    if ir[0] != "df":
        return f"{path}: a data frame with columns {list(have.values())} is described by {oracle.canon(ir)}"
    offered = [label for label, _ in ir[1]]
    if sorted(offered) != sorted(have):
        return f"{path}: typed access to {[x for _, x in offered]}, columns are {[x for _, x in have]}"
    if not set(ir[2]) <= set(have):
        return f"{path}: labels {ir[2]} are accepted, columns are {list(have)}"
    if strategy == "Full type hint":
        if ir[3]:
            return f"{path}: any {ir[3]} is accepted as a label"
    elif "str" not in ir[4]:
        return f"{path}: not any string is accepted"
    elif set(ir[4]) - {"str"} or set(ir[3]) - {"str"}:
        return f"{path}: labels of other types are accepted: {ir[3]}"
    for label, t in ir[1]:
        got = v[have[label]]
        where = f"{path}[{label[1]}]"
        if isinstance(got, pd.DataFrame):
            r = exact(got, t, ctx, strategy, v, where)
        else:
            r = oracle.why_not(got, t, ctx, where) or oracle.excess(t, [got], ctx, where)
        if r:
            return r
    return None
