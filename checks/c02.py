"""C02: the generated module stands on its own."""
import ast
import builtins

import pandas as pd

from mc import gen, oracle, plans, termcheck, world

LEVEL = "model_checking"
ASSUMPTIONS = [
    "name resolution is decided by executing the module in an empty namespace and evaluating every quoted reference in it",
    "class names that shadow builtins, typing names or other names of the generated module are excluded",
]
NAMES = ["A", "_", "__", "_x", "É", "日本", "Xa", "XA", "X1", "x", "aB", "a_b", "Xlist", "XList", "AA", "self", "key", "value", "name", "ModelTypedDict"]
NAMED = [
    "[1]", "[[1]]", "[[1], ['s']]", "[[[1]], [['s']]]", "{'a': 1}", "{'a': {'b': {'a': 1}}}", "{'a': [{'b': 1}, {'c': 's'}]}", "{'a b': {'c': 1}, 'ab': {'c': 's'}}",
    "([1], ['s'])", "{(1, 's'), 1}", "fn_plain", "[fn_plain, fn_any]", "{'f': fn_plain, 'g': lambda a: 1}", "{'list': [[1]], 'x': [['s']]}", "MappingProxyType({'a': {'a': 1}})",
    "{1: {'a': 1}, 's': {'a': 's'}}", "[Custom(), Custom]", "np.array([1])", "pd.DataFrame({'a': [1]})", "{'a': {}, 'b': {}, 'c': [{}]}", "iter([[1]])", "None", "1",
]


def class_names(v, out, depth=0):
    """Names of the classes the value mentions."""
    if depth > 8:
        return out
    out.update(c.__name__ for c in type(v).__mro__)
    if isinstance(v, type):
        out.update(c.__name__ for c in v.__mro__)
    if isinstance(v, pd.Series):
        out.update(type(e).__name__ for e in v)
    if isinstance(v, dict) or type(v).__name__ == "mappingproxy":
        for k, e in v.items():
            class_names(k, out, depth + 1)
            class_names(e, out, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)) or hasattr(v, "__next__") and not hasattr(v, "read"):
        for e in v:
            class_names(e, out, depth + 1)
    return out


def judge(case, rep):
    name = case.get("name", "X")
    text = gen.text(case["value"], case["config"], name)
    rep.seen("outcomes", text)
    try:
        closed(text, oracle.module(text), name, case, rep)
    except oracle.Bad as b:
        if "type 'Series' is not subscriptable" not in b.detail or "pd.Series[" not in text:
            raise
        rep.violation(case, "module-import", b.detail, site="pd.Series[...] subscript")
        oracle.install_series_shim()
        try:
            closed(text, oracle.Module(text), name, case, rep)
        finally:
            del pd.Series.__class_getitem__


def closed(text, mod, name, case, rep):
    mod.ir(name)
    names = None
    imported = {a.asname or a.name for n in ast.walk(mod.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    for d, where in mod.declared.items():
        if len(where) > 1:
            rep.violation(case, "declared-twice", d)
        if d in imported:
            rep.violation(case, "shadows-import", d)
        for node in oracle.nodes(mod.ir(d)):
            fwd = node[1] if node[0] == "fwd" else node[1][1] if node[0] == "type" and node[1][0] == "fwd" else None
            if fwd is not None:
                if names is None:
                    names = class_names(world.build(case["value"]), set())
                if fwd not in names:
                    rep.violation(case, "unknown-name", f"{fwd} in {d} names no class of the value")
    for unknown in unresolved(mod.tree, set(mod.ns) | set(dir(builtins))):
        rep.violation(case, "unknown-name", unknown)
    for node in ast.walk(mod.tree):
        if isinstance(node, ast.ImportFrom) and node.level:
            rep.violation(case, "relative-import", ast.unparse(node))


def unresolved(node, known):
    """Names read anywhere, function bodies included, that nothing binds."""
    if isinstance(node, ast.FunctionDef):
        a = node.args
        params = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]
        inner = known | {p.arg for p in params}
        for child in node.body:
            yield from unresolved(child, inner)
        for child in [a, *node.decorator_list] + ([node.returns] if node.returns else []):
            yield from unresolved(child, known)
        return
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id not in known:
        yield node.id
    for child in ast.iter_child_nodes(node):
        yield from unresolved(child, known)


def run(tier):
    plan = plans.generic(tier)
    rep = termcheck.explore(plan, judge)
    cases = [{"value": v, "config": c, "name": n} for v in NAMED for c in plans.U.ONE_FACTOR for n in NAMES]

    def work(items, i, n, r):
        for case in items[i::n]:
            r.count("executions")
            r.count("executions class names")
            r.seen("states", case["value"])
            termcheck.guarded(judge, case, r)

    rep.merge(termcheck.runner.parallel(work, cases))
    return rep, termcheck.coverage(rep, "all values of each universe x its configurations, and all listed class names; the module is executed alone and every name is resolved")


def replay(case, rep):
    termcheck.guarded(judge, case, rep)
