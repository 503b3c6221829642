"""C03 over the whole value explorer."""
from mc import generic, oracle, plans, termcheck

oracle.install_series_shim()
LEVEL = "model_checking"
ASSUMPTIONS = [
    "pd.Series[T] is evaluated through a stand-in, as pandas cannot evaluate it at run time",
    "values outside the listed alphabets and bounds are not covered",
]
JUDGE = generic.tight


def run(tier):
    plan = plans.generic(tier) + [("groups of 2 dicts with iterators", plans.once(plans.U.dict_groups, 2, values=["1", "iter([1])"], kinds=("list",)), plans.D)]
    rep = termcheck.explore(plan, JUDGE)
    rep.merge(generic.named(JUDGE))
    return rep, termcheck.coverage(rep, "all values of each universe x its configurations; a case is generated by the real code, the module is executed and related to the value")


def replay(case, rep):
    termcheck.guarded(JUDGE, case, rep)
