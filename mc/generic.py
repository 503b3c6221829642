"""Judges shared by the checks over (value, configuration) pairs."""
from . import gen, oracle, world


def executed(case, rep):
    """(text, module, IR, a fresh value, oracle context) of one case."""
    oracle._peeked.clear()
    c = case["config"]
    name = case.get("name", "X")
    text = gen.text(case["value"], c, name)
    rep.seen("outcomes", text)
    mod = oracle.module(text)
    ir = mod.ir(name)
    limit = c.get("check_max_n_elements_within_container", 500)
    ctx = oracle.Ctx(mod, limit, c.get("dict_strategy", "TypedDict") == "TypedDict")
    return text, mod, ir, world.build(case["value"]), ctx


def sound(case, rep):
    _, _, ir, v, ctx = executed(case, rep)
    r = oracle.why_not(v, ir, ctx)
    if r:
        rep.violation(case, "unsound", r)


def tight(case, rep):
    _, _, ir, v, ctx = executed(case, rep)
    r = oracle.excess(ir, [v], ctx)
    if r:
        rep.violation(case, "loose", r)


# every kind of named declaration, by what the class name may be confused with
NAMED = [
    "[1]", "[[1], ['s']]", "{'a': 1}", "[{'a': 1}, {'b': 's'}]", "{'a': {'b': [1]}}", "{'a': [1, 's']}", "((1, 's'), [1])", "iter([[1]])", "MappingProxyType({'a': [1]})",
    "fn_plain", "[fn_plain, fn_args]", "Custom", "[Custom(), int]", "np.array([1])", "[{'a': {'b': 1}}, {'a': {'b': 's'}}]", "{1: [[1, 's']]}", "[]", "[[], {}]", "frozenset([1, 's'])", "None",
]
NAMED_CONFIGS = [{}, {"dict_strategy": "dict"}, {"min_height_to_define_type_alias": 0}, {"min_height_to_define_type_alias": 3}, {"merge_different_typed_dicts_if_similarity_above": 1}]


def named(judge):
    """The judge over every kind of declaration x every class name."""
    import itertools

    from . import runner, termcheck, universes as U

    cases = [{"value": v, "config": c, "name": n} for v, c, n in itertools.product(NAMED, NAMED_CONFIGS, U.NAMES)]

    def work(_, i, n, rep):
        for case in cases[i::n]:
            rep.seen("states", f"{case['name']}: {case['value']}")
            rep.count("executions")
            rep.count("executions class names")
            termcheck.guarded(judge, case, rep)

    return runner.parallel(work, None)
