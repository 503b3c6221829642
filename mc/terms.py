"""The term explorer's state space.

A term is ('leaf', expr) or (kind, (child, ...)) with dict-like kinds holding
(key expr, child) pairs.  `Space.by_size(n)` enumerates *all* terms of n nodes
over the given alphabet: a term of size n is a container term of size n-k grown
by one child of size k, so every term is reached by exactly one growth step
from its predecessor (the transition relation of the explorer).
"""
from functools import lru_cache

# how a container is written down
WRAP = {
    "list": lambda cs: "[" + ", ".join(cs) + "]",
    "tuple": lambda cs: "(" + ", ".join(cs) + ("," if len(cs) == 1 else "") + ")",
    "set": lambda cs: "{" + ", ".join(cs) + "}" if cs else "set()",
    "frozenset": lambda cs: "frozenset([" + ", ".join(cs) + "])",
    "iter": lambda cs: "iter([" + ", ".join(cs) + "])",
    "gen": lambda cs: "gen(" + ", ".join(cs) + ")",
    "series": lambda cs: "pd.Series([" + ", ".join(cs) + "], dtype=object)",
    "dict": lambda cs: "{" + ", ".join(cs) + "}",
    "mproxy": lambda cs: "MappingProxyType({" + ", ".join(cs) + "})",
}
MAPS = ("dict", "mproxy")
HASHABLE_KINDS = ("tuple", "frozenset")
UNHASHABLE_CHILD = ("set", "frozenset")


def render(t):
    kind = t[0]
    if kind == "leaf":
        return t[1]
    if kind in MAPS:
        return WRAP[kind]([f"{k}: {render(c)}" for k, c in t[1]])
    return WRAP[kind]([render(c) for c in t[1]])


def hashable(t):
    if t[0] == "leaf":
        return not t[1].startswith(("np.array", "pd.", "slice"))
    return t[0] in HASHABLE_KINDS and all(hashable(c) for c in t[1])


def size(t):
    if t[0] == "leaf":
        return 1
    if t[0] in MAPS:
        return 1 + sum(size(c) for _, c in t[1])
    return 1 + sum(size(c) for c in t[1])


class Space:
    def __init__(self, leaves, kinds, keys=("'a'", "'b'", "'c'", "'d'"), key_choice="ordered"):
        """key_choice 'ordered': the i-th entry uses the i-th key; 'free': every
        increasing selection of distinct keys, in every order."""
        self.leaves = [("leaf", e) for e in leaves]
        self.kinds = kinds
        self.keys = keys
        self.free = key_choice == "free"
        self._c = {}
        self.transitions = 0

    def containers(self, n):
        if n in self._c:
            return self._c[n]
        out = []
        if n == 1:
            out = [(k, ()) for k in self.kinds]
        else:
            for k in range(1, n):
                for c in self.containers(n - k):
                    for t in self.terms(k):
                        out.extend(self.extend(c, t))
        self.transitions += len(out)
        self._c[n] = out
        return out

    def extend(self, c, t):
        kind, children = c
        if kind in MAPS:
            used = [k for k, _ in children]
            if self.free:
                return [(kind, children + ((k, t),)) for k in self.keys if k not in used]
            if len(children) >= len(self.keys):
                return []
            return [(kind, children + ((self.keys[len(children)], t),))]
        if kind in UNHASHABLE_CHILD:
            if not hashable(t) or t in children or (children and render(t) < render(children[-1])):
                return []
        return [(kind, children + (t,))]

    def terms(self, n):
        return (self.leaves if n == 1 else []) + self.containers(n)

    def upto(self, n):
        for k in range(1, n + 1):
            yield from (render(t) for t in self.terms(k))


def wraps(expr, depth=1, kinds=("list", "tuple", "dict", "mproxy", "iter", "set", "frozenset")):
    """expr inside each container kind (hashability permitting)."""
    for k in kinds:
        if k in ("set", "frozenset") and not _hashable_expr(expr):
            continue
        yield WRAP[k]([f"'a': {expr}" if k in MAPS else expr])


@lru_cache(maxsize=None)
def _hashable_expr(expr):
    from .world import build

    try:
        hash(build(expr))
        return True
    except TypeError:
        return False
