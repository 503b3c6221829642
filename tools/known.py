"""Writes known_findings.json (run by hand while developing, never by a check)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
out.append({"id": "K1", "property": "C02", "status": "known", "match": {"kind": "module-import", "site": "pd.Series[...] subscript"},
  "what": "an alias of a pandas series (`pd.Series[int]`) cannot be evaluated when the generated module is imported, as pandas' Series is not subscriptable at run time (the exact text is locked by the stable tests)"})
# C03: dicts holding iterators
pool = ["{}"] + [f"{{'{k}': {v}}}" for k in "ab" for v in ("1", "iter([1])")] + [f"{{'a': {u}, 'b': {v}}}" for u in ("1", "iter([1])") for v in ("1", "iter([1])")]
def parse(d):
    return dict(x.split(": ") for x in d.strip("{}").split(", ")) if d != "{}" else {}
cases = []
for a in pool:
    for b in pool:
        da, db = parse(a), parse(b)
        if a == b or "iter" not in a + b:
            continue
        keys, common = set(da) | set(db), set(da) & set(db)
        if not common or set(da) == set(db) or any(da[k] != db[k] for k in common):
            continue
        cases.append({"value": f"[{a}, {b}]", "config": {}})
out.append({"id": "K2", "property": "C03", "status": "known", "match": {"kind": "loose", "cases": cases},
  "what": "merging similar dictionaries that hold iterators describes these as Iterator[Any], as they were already consumed when the merged dictionary is inspected again"})
from mc import universes as U
cases2 = [{"value": "{'a': {'b': {'a': 1}}}", "config": c, "name": "__"} for c in U.ONE_FACTOR if c.get("dict_strategy", "TypedDict") == "TypedDict"]
out.append({"id": "K3", "property": "C02", "status": "known", "match": {"kind": "module-import", "cases": cases2},
  "what": "under a class name starting with two underscores, TypedDicts nested twice refer to each other by names that Python mangles inside a class body, so the module cannot be imported"})
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "643ebf3..HEAD"], capture_output=True, text=True).stdout.splitlines()
PROPS = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix:"):
        out.append({"id": f"F-{h}", "property": PROPS.get(s, "?"), "status": "fixed", "commit": h, "what": f"fixed: property={PROPS.get(s, '?')} {h} {s[5:]}"})
        if s not in PROPS: print("no property for", s)
extra = os.path.join(V, "tools", "known_extra.json")
if os.path.exists(extra):
    out = [e for e in out if e["status"] == "known"] + json.load(open(extra)) + [e for e in out if e["status"] == "fixed"]
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(cases), "C03 cases", len(out), "entries")
