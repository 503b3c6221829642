"""The code under test with every order it must not depend on under control.

The package is imported once more with its syntax trees rewritten: the sets it
makes iterate in the order a controller chooses, and id() and hash() give what
the controller wants.  Sets that are part of the value keep their own order.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import sys

from . import env


class Control:
    """Which permutation is used at which iteration of a set."""

    def __init__(self):
        self.reset()

    def reset(self, plan=None, everywhere=None, ids=False, hashes=False):
        self.plan, self.everywhere = plan or {}, everywhere
        self.ids, self.hashes = ids, hashes
        self.log = []
        self.id_calls = self.hash_calls = 0

    def order(self, items):
        if len(items) < 2:
            return items
        n = len(self.log)
        self.log.append(len(items))
        how = self.plan.get(n, self.everywhere)
        return items if how is None else permuted(items, how)


def permuted(items, how):
    kind, k = how
    if kind == "reverse":
        return items[::-1]
    if kind == "rotate":
        k %= len(items)
        return items[k:] + items[:k]
    if kind == "swap":
        items = list(items)
        if k + 1 < len(items):
            items[k], items[k + 1] = items[k + 1], items[k]
        return items
    return [items[i] for i in list(itertools.permutations(range(len(items))))[k]]


def permutations(n, few=8):
    """Every other order of n items (n <= 4), or reversal, rotations and swaps
    (some of these for more than `few` items)."""
    if n <= 4:
        count = {2: 2, 3: 6, 4: 24}[n]
        return [("permute", k) for k in range(1, count)]
    if n > few:
        return [("reverse", 0), ("rotate", 1), ("rotate", n // 2), ("swap", 0), ("swap", n - 2)]
    return [("reverse", 0)] + [("rotate", k) for k in range(1, n)] + [("swap", k) for k in range(n - 1)]


control = Control()


def raw(x):
    """The items of x without asking the controller."""
    return list(x._order) if isinstance(x, (Controlled, ControlledFrozen)) else list(x)


class Controlled(set):
    def __init__(self, items=()):
        items = raw(items)
        super().__init__(items)
        self._order = dict.fromkeys(items)

    def __iter__(self):
        return iter(control.order(list(self._order)))

    def __reduce__(self):
        return set, (list(self._order),)

    def add(self, x):
        super().add(x)
        self._order.setdefault(x)

    def discard(self, x):
        super().discard(x)
        self._order.pop(x, None)

    def remove(self, x):
        super().remove(x)
        self._order.pop(x, None)

    def clear(self):
        super().clear()
        self._order.clear()

    def pop(self):
        if not self._order:
            raise KeyError("pop from an empty set")
        x = control.order(list(self._order))[0]
        self.remove(x)
        return x

    def update(self, *others):
        for o in others:
            for x in raw(o):
                self.add(x)

    def _keep(self, f):
        for x in [x for x in self._order if not f(x)]:
            self.remove(x)

    def union(self, *others):
        out = Controlled(self)
        out.update(*others)
        return out

    def intersection(self, *others):
        pools = [set(raw(o)) for o in others]
        return Controlled([x for x in raw(self) if all(x in p for p in pools)])

    def difference(self, *others):
        pools = [set(raw(o)) for o in others]
        return Controlled([x for x in raw(self) if not any(x in p for p in pools)])

    def symmetric_difference(self, other):
        other = raw(other)
        mine = raw(self)
        return Controlled([x for x in mine if x not in set(other)] + [x for x in other if x not in set(mine)])

    def copy(self):
        return Controlled(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return Controlled([copy.deepcopy(x, memo) for x in self._order])

    def intersection_update(self, *others):
        pools = [set(raw(o)) for o in others]
        self._keep(lambda x: all(x in p for p in pools))

    def difference_update(self, *others):
        pools = [set(raw(o)) for o in others]
        self._keep(lambda x: not any(x in p for p in pools))

    def symmetric_difference_update(self, other):
        new = raw(self.symmetric_difference(other))
        self.clear()
        self.update(new)

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return Controlled(o).union(self)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return Controlled(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return Controlled(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class ControlledFrozen(frozenset):
    def __new__(cls, items=()):
        items = raw(items)
        self = super().__new__(cls, items)
        self._order = dict.fromkeys(items)
        return self

    def __iter__(self):
        return iter(control.order(list(self._order)))


def wrap(x):
    return Controlled(x) if type(x) is set else ControlledFrozen(x) if type(x) is frozenset else x


def controlled_id(x):
    control.id_calls += 1
    return (1 << 62) - id(x) if control.ids else id(x)


def controlled_hash(x):
    control.hash_calls += 1
    return ~hash(x) if control.hashes else hash(x)


NAMES = {"set": "__mc_set__", "frozenset": "__mc_frozenset__", "id": "__mc_id__", "hash": "__mc_hash__"}
builtins.__mc_set__ = Controlled
builtins.__mc_frozenset__ = ControlledFrozen
builtins.__mc_wrap__ = wrap
builtins.__mc_id__ = controlled_id
builtins.__mc_hash__ = controlled_hash


class Rewrite(ast.NodeTransformer):
    def _call(self, name, args):
        return ast.Call(ast.Name(name, ast.Load()), args, [])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in NAMES:
            f.id = NAMES[f.id]
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("set", "frozenset"):
            f.value.id = NAMES[f.value.id]
        called = getattr(f, "id", getattr(f, "attr", ""))
        if called in ("defaultdict", "field", "map", "partial", "sorted", "min", "max", "setdefault", "reduce"):
            for a in [*node.args, *(k.value for k in node.keywords)]:
                if isinstance(a, ast.Name) and a.id in NAMES:
                    a.id = NAMES[a.id]
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        if isinstance(node.body, ast.Name) and node.body.id in NAMES:
            node.body.id = NAMES[node.body.id]
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__mc_set__", [ast.List(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__mc_set__", [ast.ListComp(node.elt, node.generators)]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            return ast.copy_location(self._call("__mc_wrap__", [node]), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(self.get_data(path), path)))
        return compile(tree, path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "lazy_type_hint":
            return None
        base = os.path.join(env.REPO, *name.split("."))
        for file, package in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(file):
                return importlib.util.spec_from_file_location(name, file, loader=Loader(name, file), submodule_search_locations=[base] if package else None)
        return None


def load():
    """Make the rewritten package the one this process imports."""
    env.load()
    for n in [n for n in sys.modules if n.split(".")[0] == "lazy_type_hint"]:
        del sys.modules[n]
    sys.meta_path.insert(0, Finder())
    return importlib.import_module("lazy_type_hint")
