"""A scratch copy of the package, so that the live generator writes nowhere
else, and what another process can see of it."""
import ast
import atexit
import importlib
import os
import shutil
import sys
import tempfile

from . import env
from .oracle import Bad


class Broken(Bad):
    """What is stored is not a usable interface."""

    def __init__(self, detail):
        super().__init__("broken", detail)


class Sandbox:
    """Must be created in a process of its own: the package it imports is the
    copy.  `clear` brings the copy back to its initial files."""

    def __init__(self, before_import=None):
        self.root = tempfile.mkdtemp(prefix="live-")
        self.pid = os.getpid()
        atexit.register(self.close)
        self.package = os.path.join(self.root, "lazy_type_hint")
        shutil.copytree(os.path.join(env.REPO, "lazy_type_hint"), self.package, ignore=self._ignore)
        sys.path[:] = [p for p in sys.path if p != env.REPO]
        sys.path.insert(0, self.root)
        self.generators = os.path.join(self.package, "generators")
        self.stub = os.path.join(self.generators, "lazy_type_hint_live.pyi")
        self.build = os.path.join(self.generators, "build")
        self.pristine = self.files()
        self.pristine_dirs = self.dirs()
        if before_import:
            before_import()
        self.load()

    @staticmethod
    def _ignore(directory, names):
        bad = {"__pycache__"}
        if os.path.basename(directory) == "generators":
            bad |= {"build"} | {n for n in names if n.endswith(".pyi")}
        return bad & set(names)

    def load(self):
        """Import the copy, as a new process would."""
        for name in [n for n in sys.modules if n.split(".")[0] == "lazy_type_hint"]:
            del sys.modules[name]
        importlib.invalidate_caches()
        self.pkg = importlib.import_module("lazy_type_hint")
        if not os.path.realpath(self.pkg.__file__).startswith(os.path.realpath(self.root)):
            raise RuntimeError("the scratch copy was not the one imported")
        self.Live = self.pkg.LazyTypeHintLive
        self.Plain = self.pkg.LazyTypeHint
        self.Strategies = self.pkg.ParsingStrategies

    def close(self):
        if os.getpid() == self.pid and os.path.isdir(self.root):
            shutil.rmtree(self.root)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.package):
            for f in fs:
                p = os.path.join(d, f)
                if not p.endswith(".pyc"):
                    with open(p, "rb") as h:
                        out[p] = h.read()
        return out

    def dirs(self):
        return {d for d, _, _ in os.walk(self.package)}

    def clear(self):
        self.restore({})

    def snapshot(self):
        """Every file that differs from the package's own ones."""
        return {p: c for p, c in self.files().items() if self.pristine.get(p) != c}

    def restore(self, snapshot):
        want = {**self.pristine, **snapshot}
        have = self.files()
        for p in set(have) - set(want):
            os.remove(p)
        for d in sorted(self.dirs() - self.pristine_dirs, reverse=True):
            if not any(p.startswith(d + os.sep) for p in want):
                os.rmdir(d)
        for p, c in want.items():
            if have.get(p) != c:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as h:
                    h.write(c)

    # -- what is visible from outside

    def observe(self):
        """{class name: stripped AST of its stored module}; raises Broken."""
        if not os.path.exists(self.stub):
            return {}
        with open(self.stub, encoding="utf-8") as f:
            names = parse_stub(f.read())
        out = {}
        for n in names:
            path = os.path.join(self.build, n + ".py")
            if not os.path.exists(path):
                raise Broken(f"class {n} is listed but its module does not exist")
            with open(path, encoding="utf-8") as f:
                out[n] = stripped(f.read(), n)
        return out

    def stored_modules(self):
        if not os.path.isdir(self.build):
            return []
        return sorted(f for f in os.listdir(self.build) if f.endswith(".py") and not f.startswith((".", "__")))

    def expected(self, value, name, config=None):
        """The hints a plain generation gives, in the form `observe` uses."""
        text = self.Plain(self.Strategies(**(config or {}))).from_data(value, class_name=name).to_string()
        return stripped(text, name)


def stripped(text, name=None):
    """A module without its documentation, comparable."""
    try:
        tree = ast.parse(text)
    except (SyntaxError, ValueError) as e:
        raise Broken(f"the module of {name} is not valid Python: {e}") from None
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef)):
            node.body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))]
    if name is not None and not any(getattr(n, "name", None) == name or isinstance(n, ast.AnnAssign) and n.target.id == name or isinstance(n, ast.Assign) and n.targets[0].id == name for n in tree.body):
        raise Broken(f"the module of {name} does not declare it")
    return ast.dump(tree)


def parse_stub(text):
    """The class names an interface stub offers; Broken unless import, overloads
    of both methods and the untyped methods are all there and agree."""
    try:
        tree = ast.parse(text)
        compile(text, "stub", "exec")
    except (SyntaxError, ValueError) as e:
        raise Broken(f"the stub is not valid Python: {e}") from None
    imported = []
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and ".build." in (node.module or ""):
            for a in node.names:
                if a.asname or node.module.rsplit(".", 1)[1] != a.name:
                    raise Broken(f"odd import {ast.unparse(node)}")
                imported.append(a.name)
    if len(set(imported)) != len(imported):
        raise Broken(f"imported twice: {imported}")
    cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == "LazyTypeHintLive"]
    if len(cls) != 1:
        raise Broken("the stub does not declare LazyTypeHintLive once")
    methods = {}
    for n in cls[0].body:
        if isinstance(n, ast.FunctionDef):
            methods.setdefault(n.name, []).append(n)
    for m in ("__init__", "from_data", "from_yaml_file", "reset"):
        if m not in methods:
            raise Broken(f"the stub has no method {m}")
    for m in ("from_data", "from_yaml_file"):
        typed, untyped = [], 0
        for n in methods[m]:
            args = {a.arg: a for a in n.args.args + n.args.kwonlyargs}
            if "class_name" not in args or not {"data", "path"} & set(args):
                raise Broken(f"{m} lost its parameters")
            ann = args["class_name"].annotation
            if isinstance(ann, ast.Name) and ann.id == "str":
                untyped += 1
            elif isinstance(ann, ast.Subscript) and isinstance(ann.slice, ast.Constant):
                if ast.unparse(n.returns) != ann.slice.value:
                    raise Broken(f"{m} for {ann.slice.value!r} returns {ast.unparse(n.returns)}")
                typed.append(ann.slice.value)
            else:
                raise Broken(f"{m} has an odd class_name")
            if len(methods[m]) > 1 and not any(ast.unparse(d).endswith("overload") for d in n.decorator_list):
                raise Broken(f"an overload of {m} is not marked as such")
        if untyped != 1:
            raise Broken(f"{m} has {untyped} untyped variants")
        if sorted(typed) != sorted(imported):
            raise Broken(f"{m} is offered for {sorted(typed)} but {sorted(imported)} are imported")
    return sorted(imported)


INSTANCE_VALUES = ["[1]", "['s']", "{'a': {'b': [1]}}"]


def judge_instances(case, rep, sb):
    """Several live instances, all created first (in the order given) and then
    used in turn: each keeps the strategies and the mode it was created with."""
    from . import world

    sb.clear()
    made = [sb.Live(sb.Strategies(**c), m) for c, m in case["instances"]]
    model = {}
    for n, op in enumerate(case["history"]):
        if op == "reset":
            made[0].reset()
            model = {}
        else:
            who, name, v = op
            config, mode = case["instances"][who]
            want = sb.expected(world.build(INSTANCE_VALUES[v]), name, config)
            accept = mode == "overwrite" or model.get(name, want) == want
            try:
                made[who].from_data(world.build(INSTANCE_VALUES[v]), class_name=name)
                accepted = True
            except sb.pkg.generators.lazy_type_hint_live.LazyTypeHintLiveError:
                accepted = False
            if accepted != accept:
                rep.violation(case, "decision", f"operation {n} {op} (mode {mode}) accepted: {accepted}, expected {accept}")
                return
            if accepted:
                model[name] = want
        try:
            seen = sb.observe()
        except Broken as b:
            rep.violation(case, "registry", f"after operation {n} {op}: {b}")
            return
        rep.seen("outcomes", str(sorted(seen.items())))
        if seen != model:
            rep.violation(case, "registry", f"after operation {n} {op}: {seen}, expected {model}")
            return


def instance_cases(instances, names, depth):
    import itertools

    ops = [[w, n, v] for w in range(len(instances)) for n in names for v in range(len(INSTANCE_VALUES))] + ["reset"]
    for order in itertools.permutations(instances):
        for h in itertools.product(ops, repeat=depth):
            yield {"instances": list(order), "history": list(h)}


# Many class names to live at the same time
CROWDS = [[f"Class{n}" for n in range(64)], [f"A{'a' * n}" for n in range(40)], [f"X{n}_{'yz'[n % 2]}" for n in range(40)][::-1], [chr(97 + n % 26) * (1 + n // 26) for n in range(52)], [f"{chr(97 + n)}{n % 3}" for n in range(26)]]
