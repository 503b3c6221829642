"""C10: generating from YAML files under every fault of a file operation, every
misbehaviour of a loader, every history of calls and edits up to a depth and
every schedule up to a preemption bound, on the real code."""
import fcntl
import itertools
import multiprocessing
import os
import shutil
import tempfile

import yaml

from mc import live, runner, sched, seam, termcheck

LEVEL = "model_checking"
ASSUMPTIONS = [
    "temporary files are looked for in the directory tempfile uses, in the working directory and next to the source",
    "a file is allowed to stay when removing it is what failed",
    "threads switch at file operations, locks, loader calls and (line exploration) at lines of the package",
]
SafeLoader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
# of the same size
CONTENTS = {
    "1": "aaa: 1  # one c\n# below\n",
    "2": "bbb: x  # two c\n# below\n",
    "3": "aaa: 2  # new c\n# lower\n",
    "4": "- aa: 1 # one c\n# below\n",
}
SETTINGS = ["side", "below", ["side", "below"], None]
FILES = {"f": ("src", "d.yaml"), "g": ("other", "d.yaml"), "h": ("src", "e.yml")}
PATHS = ["str", "Path", "relative", "link", "dotted"]



class Bench:
    """A scratch world: sources, a directory for temporary files, bystanders."""

    def __init__(self):
        import numpy, pandas  # noqa: F401,E401

        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c10-"))
        self.tmp = os.path.join(self.root, "tmp")
        sb = self.sb = live.Sandbox(before_import=lambda: None)

        def modules():
            import sys

            return [m for n, m in sys.modules.items() if n.split(".")[0] == "lazy_type_hint"]

        sched.faked_locks(sb.load, modules)
        tempfile.tempdir = self.tmp
        self.names = set(os.listdir(sb.generators))
        for d in ("tmp", "src", "other", "cwd"):
            os.mkdir(os.path.join(self.root, d))
        self.home = os.getcwd()
        os.chdir(os.path.join(self.root, "cwd"))
        os.symlink(os.path.join(self.root, "src", "d.yaml"), os.path.join(self.root, "cwd", "link.yaml"))
        self.reset()

    def path(self, name):
        return os.path.join(self.root, *FILES[name])

    def reset(self, contents=(("f", "1"), ("g", "2"), ("h", "3"))):
        """Only what is needed, as most runs change nothing."""
        for d in (self.tmp, os.path.join(self.root, "cwd")):
            for n in os.listdir(d):
                p = os.path.join(d, n)
                if n not in ("d.yaml", "e.yml", "link.yaml"):
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
        os.chdir(os.path.join(self.root, "cwd"))
        wanted = {self.path(n): CONTENTS[c] for n, c in contents}
        for d in (self.tmp, os.path.join(self.root, "cwd")):
            for n in ("d.yaml", "e.yml"):
                wanted[os.path.join(d, n)] = "bystander: 1\n"
        for p, text in wanted.items():
            try:
                with seam.real_open(p, encoding="utf-8") as f:
                    if f.read() == text:
                        continue
            except OSError:
                pass
            with seam.real_open(p, "w", encoding="utf-8") as f:
                f.write(text)
        g = self.sb.generators
        for n in os.listdir(g):
            if n not in self.names and n != "__pycache__":
                p = os.path.join(g, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        self.before = self.look()

    def look(self):
        """Everything observable of the scratch world."""
        seen = {}
        for d in ("src", "other", "cwd", "tmp"):
            d = os.path.join(self.root, d)
            if not os.path.isdir(d):
                seen[d] = None
                continue
            st = os.stat(d)
            if d != self.tmp:
                seen[d] = (st.st_mode, st.st_mtime_ns, st.st_ctime_ns)
            for e in os.scandir(d):
                st = e.stat(follow_symlinks=False)
                content = b""
                if e.is_file():
                    with seam.real_open(e.path, "rb") as f:
                        content = f.read()
                seen[e.path] = (content, st.st_mode, st.st_ino, st.st_mtime_ns, st.st_ctime_ns, st.st_nlink, st.st_uid, st.st_gid)
        return seen

    def changes(self, allowed=()):
        """What differs from before, in words."""
        out = []
        now = self.look()
        for p in sorted(set(now) | set(self.before)):
            if now.get(p) == self.before.get(p) or p in allowed:
                continue
            what = "was left behind" if p not in self.before else "disappeared" if p not in now else "was modified"
            out.append(f"{os.path.relpath(p, self.root)} {what}")
        return out

    def locked(self, path):
        with seam.real_open(path, "r+b") as f:
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                fcntl.flock(f, fcntl.LOCK_UN)
                fcntl.lockf(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                fcntl.lockf(f, fcntl.LOCK_UN)
            except OSError:
                return True
        return False

    def spelled(self, name, how):
        from pathlib import Path

        p = self.path(name)
        if how == "str":
            return p
        if how == "Path":
            return Path(p)
        if how == "relative":
            return os.path.relpath(p)
        if how == "dotted":
            return os.path.join(self.root, "other", "..", *FILES[name])
        return "link.yaml"

    def close(self):
        os.chdir(self.home)
        tempfile.tempdir = None
        shutil.rmtree(self.root)
        self.sb.close()

    # -- calls

    def call(self, gen, path, setting, name="X", load=None, instance=None):
        """(how it ended, what was returned)."""
        load = load or self.load
        try:
            if gen == "plain":
                i = instance or self.sb.Plain()
                return "ok", i.from_yaml_file(load, path, class_name=name, comments_are=setting).to_string()
            i = instance or self.sb.Live()
            data = i.from_yaml_file(load, path, class_name=name, comments_are=setting)
            with seam.real_open(os.path.join(self.sb.build, name + ".py"), encoding="utf-8") as f:
                return "ok", repr(data), f.read()
        except seam.Crash:
            return ("crash",)
        except sched.Stop:
            raise
        except BaseException as e:  # noqa: BLE001
            return "raised", e

    @staticmethod
    def load(path):
        with open(path, "rb") as f:
            return yaml.load(f, SafeLoader)


def typed(outcome, name="X"):
    """Without documentation."""
    if outcome[0] != "ok":
        return None
    return (*outcome[1:-1], live.stripped(outcome[-1], name))


def alone():
    """{(gen, content, setting): outcome}, each found by a process that has
    never done anything else."""
    todo = [(g, c, s) for g in ("plain", "live") for c in CONTENTS for s in SETTINGS]
    reader, writer = multiprocessing.Pipe(False)
    got = {}
    for g, c, s in todo:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                b = Bench()
                b.reset((("f", c), ("g", "2"), ("h", "3")))
                r = b.call(g, b.path("f"), s)
                assert r[0] == "ok", r
                writer.send(r)
                b.close()
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError(f"a single call failed: {(g, c, s)}")
        got[g, c, repr(s)] = reader.recv()
    return got


ALONE = {}


def expect(gen, content, setting):
    return ALONE[gen, content, repr(setting)]


# ---------------------------------------------------------------- faults


class Fault(seam.Stopper):
    def at(self, kind, path):
        if self.how == "interrupt" and self.count == self.n:
            self.count += 1
            self.hit = (kind, path)
            raise KeyboardInterrupt
        return super().at(kind, path)


def fault_cases(tier):
    for content, setting, how, gen in itertools.product(CONTENTS, SETTINGS, PATHS, ("plain", "live")):
        if tier == "quick" and how in ("dotted", "link") and content in "34":
            continue
        yield {"fault": {"content": content, "setting": setting, "path": how, "gen": gen}}


HOWS = ["fail", "full", "interrupt", "crash", "torn"]


def judge_fault(bench, case, rep):
    c = case["fault"]
    args = c["gen"], None, c["setting"]

    def prepare():
        bench.reset((("f", c["content"]), ("g", "2"), ("h", "3")))
        return bench.spelled("f", c["path"])

    def during(controller):
        path = prepare()
        with seam.Seam([bench.root], controller, reads=True):
            return bench.call(args[0], path, args[2])

    recorder = seam.Recorder()
    clean = during(recorder)
    rep.count("executions")
    want = expect(c["gen"], c["content"], c["setting"])
    if clean != want:
        rep.violation(case, "result", f"expected {want}, got {clean}")
    if bench.changes():
        rep.violation(case, "changed", bench.changes())
    for n in range(len(recorder.effects)):
        for how in HOWS:
            one = {"fault": {**c, "n": n, "how": how}}
            if "how" in c and (n, how) != (c["n"], c["how"]):
                continue
            stopper = Fault(n, how)
            got = during(stopper)
            rep.count("executions")
            rep.count("faults")
            rep.seen("states", (repr(c), n, how))
            kind, where = stopper.hit or (None, None)
            own = {os.path.realpath(str(where))} if kind == "remove" else set()
            if how in ("crash", "torn"):
                bad = [x for x in bench.changes() if not x.startswith("tmp/") or "left behind" not in x]
            else:
                bad = bench.changes(own)
            if bad:
                rep.violation(one, "changed", f"{how} of {kind} {where}: {bad}")
            if got[0] == "ok" and typed(got) != typed(want):
                rep.violation(one, "result", f"{how} of {kind} {where}: expected {want}, got {got}")
            if got[0] == "ok" and how in ("crash", "torn", "interrupt") and stopper.hit:
                rep.violation(one, "swallowed", f"{how} of {kind} {where} was swallowed")
            if got[0] == "raised" and not isinstance(got[1], (OSError, KeyboardInterrupt)):
                rep.violation(one, "raised", f"{how} of {kind} {where}: {type(got[1])} {got[1]}")
            rep.seen("outcomes", (how, kind, got[0]))


# ----------------------------------------------------------------- names

ODD = ["a b.yaml", "\u00f1\U0001f600.yaml", "~", "~root.yaml", "$HOME.yaml", "%s.yaml", "[a]*?.yaml", "a\nb.yaml", "a.", ".yaml", "-rf.yml", "a.b.c.yaml", "noextension", "A.YAML", "{0}.yaml", "a'b\"c.yaml", "a\\b.yaml", "\udcff.yaml", "_d.yaml", "tmp.yaml", "None", "a#b.yaml", "con.yaml", "d.json", "d.yaml.bak", " .yaml", "a.yaml "]


def name_cases(tier):
    names = [("a" * (n - 5) + ".yaml")[-n:] for n in range(1, 256)] + ["\u00f1" * n + ".yml" for n in (50, 100, 110, 120, 125)] + ["x" * 120 + "." + "b" * 120] + ODD
    for k, name in enumerate(names):
        for setting in SETTINGS[:3]:
            for gen in ("plain", "live"):
                if tier == "quick" and (setting == "below" or gen == "live") and k % 5 and name not in ODD:
                    continue
                for folder in ("src", "a" * 200) if name in ODD else ("src",):
                    yield {"named": {"name": name, "setting": setting, "gen": gen, "folder": folder}}


def judge_named(bench, case, rep):
    """Files of any name, among files with names alike."""
    c = case["named"]
    name = c["name"]
    bench.reset()
    folder = os.path.join(bench.root, c["folder"])
    os.makedirs(folder, exist_ok=True)
    alike = {name[k:] for k in range(len(name))} | {name[:k] for k in range(1, len(name))}
    alike |= {"_" + name, "tmp" + name, "tmp_" + name, name + ".tmp", name + "~", "." + name} | {os.path.splitext(name)[0] + e for e in (".tmp", ".py", ".bak", ".yaml", ".yml")}
    made = []
    for d in (folder, bench.tmp, os.path.join(bench.root, "cwd")):
        for n in alike | {name}:
            p = os.path.join(d, n)
            if n in ("", ".", "..") or len(os.fsencode(n)) > 255 or os.path.lexists(p):
                continue
            with seam.real_open(p, "w", encoding="utf-8") as f:
                f.write("bystander: 2\n")
            made.append(p)
    path = os.path.join(folder, name)
    with seam.real_open(path, "w", encoding="utf-8") as f:
        f.write(CONTENTS["1"])
    seen = []

    def load(p):
        seen.append(os.path.splitext(os.fspath(p))[1])
        return bench.load(p)

    bench.before = bench.look()
    try:
        got = bench.call(c["gen"], path, c["setting"], load=load)
        rep.count("executions")
        rep.count("named files")
        want = expect(c["gen"], "1", c["setting"])
        ends = os.path.splitext(name)[1]
        if got != want and not (got[0] == "raised" and ends not in (".yaml", ".yml")):  # Refused
            rep.violation(case, "result", f"{name!r}: expected {want}, got {got}")
        if bench.changes():
            rep.violation(case, "changed", f"{name!r}: {bench.changes()}")
        if ends in (".yaml", ".yml") and set(seen) - {ends}:
            rep.violation(case, "extension", f"{name!r}: loaded from files ending in {seen}")
    finally:
        for p in {*made, path}:
            if os.path.lexists(p):
                os.remove(p)
        if c["folder"] != "src":
            shutil.rmtree(folder)
    bench.reset()


# --------------------------------------------------------------- loaders

ERRORS = {"ValueError": ValueError, "OSError": OSError, "YAMLError": yaml.YAMLError, "RecursionError": RecursionError, "StopIteration": StopIteration, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit}
MISCHIEF = ["deletes", "empties", "appends", "renames", "replaces by a directory", "keeps open", "changes directory", "returns None", "returns a list", "returns more", "read only", "makes a neighbour", "same data object", "calls again f", "calls again g", "calls again same"]


def loader_cases(tier):
    for content, setting, gen in itertools.product(CONTENTS if tier != "quick" else ("1", "4"), SETTINGS, ("plain", "live")):
        for n in (0, 1):
            for what in (*ERRORS, *MISCHIEF):
                yield {"loader": {"content": content, "setting": setting, "gen": gen, "n": n, "what": what}}


def judge_loader(bench, case, rep):
    c = case["loader"]
    bench.reset((("f", c["content"]), ("g", "2"), ("h", "3")))
    src = bench.path("f")
    calls, inner, problems, handles, extra = [], [], [], [], set()
    raised = []
    what = c["what"]
    instance = bench.sb.Plain() if c["gen"] == "plain" else bench.sb.Live()

    def load(path):
        k = len(calls)
        calls.append(str(path))
        if type(path) is not str:
            problems.append(f"the loader was given a {type(path)}")
        if bench.locked(src):
            problems.append("the source is locked")
        mine = os.path.realpath(path) == os.path.realpath(src)
        if k != c["n"] or len(calls) > 2:
            return bench.load(path)
        if what in ERRORS:
            raised.append(ERRORS[what]("loader"))
            raise raised[0]
        data = bench.load(path)
        if what == "calls again f":
            inner.append((bench.call(c["gen"], src, c["setting"], "X", instance=instance), c["content"]))
        elif what == "calls again g":
            inner.append((bench.call(c["gen"], bench.path("g"), c["setting"], "X"), "2"))
        elif what == "calls again same":
            inner.append((bench.call(c["gen"], src, "side", "X", instance=instance), c["content"], "side"))
        elif what == "returns None":
            return None
        elif what == "returns a list":
            return [data]
        elif what == "returns more":
            return {"zz": 1, "data": data}
        elif what == "changes directory":
            os.chdir(bench.root)
        elif what == "keeps open":
            handles.append(open(path, "rb"))
        elif what == "makes a neighbour":
            p = os.path.join(bench.tmp, "mine.yaml")
            extra.add(p)
            open(p, "w").close()
        elif mine:
            pass  # what a loader does to the source is its own business
        elif what == "deletes":
            os.remove(path)
        elif what == "empties":
            open(path, "w").close()
        elif what == "appends":
            with open(path, "a") as f:
                f.write("zz: 1\n")
        elif what == "renames":
            extra.add(os.path.join(bench.tmp, "moved.yaml"))
            os.replace(path, os.path.join(bench.tmp, "moved.yaml"))
        elif what == "replaces by a directory":
            os.remove(path)
            os.mkdir(path)
            extra.add(os.path.realpath(path))
        elif what == "read only":
            os.chmod(path, 0o400)
        return data

    got = bench.call(c["gen"], src, c["setting"], load=load, instance=instance)
    for h in handles:
        h.close()
    rep.count("executions")
    rep.seen("states", repr(c))
    rep.seen("outcomes", (what, c["n"], got[0], len(calls)))
    bad = bench.changes(extra) + problems
    if bad:
        rep.violation(case, "changed", bad)
    for r in inner:
        want = expect(c["gen"], r[1], r[2] if len(r) > 2 else c["setting"])
        if r[0] != want:
            rep.violation(case, "inner", f"expected {want}, got {r[0]}")
    want = expect(c["gen"], c["content"], c["setting"])
    if len(calls) <= c["n"]:
        raised.clear()
    if raised and (c["n"] == 0 or not isinstance(raised[0], Exception)):
        if got[0] != "raised" or got[1] is not raised[0]:
            rep.violation(case, "raised", f"the loader raised {what}, the call ended as {got}")
    elif got[0] != "ok":
        rep.violation(case, "raised", f"{got}")
    elif what.startswith("returns"):
        pass  # the data is what the loader says; judged by the absence of leftovers
    elif typed(got) != typed(want):
        rep.violation(case, "result", f"expected {want}, got {got}")


# -------------------------------------------------------------- histories


def operations():
    for f in "fg":
        for s in ("side", "below", None):
            yield ["call", f, s]
    for f in "fg":
        for c in ("2", "3"):
            yield ["edit", f, c]
    yield ["swap"]
    yield ["call live", "f", "side"]


def judge_history(bench, case, rep):
    bench.reset((("f", "1"), ("g", "2"), ("h", "3")))
    content = {"f": "1", "g": "2"}
    shared = bench.sb.Plain()
    for k, op in enumerate(case["history"]):
        if op[0] == "edit":
            p = bench.path(op[1])
            st = os.stat(p)
            with seam.real_open(p, "w", encoding="utf-8") as f:
                f.write(CONTENTS[op[2]])
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            content[op[1]] = op[2]
            bench.before = bench.look()
            continue
        if op[0] == "swap":
            a, b, t = bench.path("f"), bench.path("g"), os.path.join(bench.root, "swap")
            os.rename(a, t), os.rename(b, a), os.rename(t, b)
            content["f"], content["g"] = content["g"], content["f"]
            bench.before = bench.look()
            continue
        gen = "plain" if op[0] == "call" else "live"
        got = bench.call(gen, bench.path(op[1]), op[2], instance=shared if gen == "plain" and k % 2 else None)
        rep.count("transitions")
        want = expect(gen, content[op[1]], op[2])
        if got != want:
            rep.violation(case, "history", f"call {k}: expected {want}, got {got}")
        bad = bench.changes()
        if bad:
            rep.violation(case, "changed", bad)
            return
    rep.seen("states", repr(case))


def histories(depth):
    ops = list(operations())
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            if h[-1][0] in ("edit", "swap"):
                continue
            if any(x == y and x[0] in ("edit", "swap") for x, y in zip(h, h[1:])):
                continue
            yield {"history": list(h)}


# --------------------------------------------------------------- schedules

# threads: [generator, instance, file, setting, class, loader]
SCENARIOS = {
    "same file": [["plain", "own", "f", "side", "X", ""], ["plain", "own", "f", "side", "X", ""]],
    "same name elsewhere": [["plain", "own", "f", "side", "X", ""], ["plain", "own", "g", "side", "X", ""]],
    "same name, one instance": [["plain", "shared", "f", "side", "X", ""], ["plain", "shared", "g", "below", "X", ""]],
    "same file, other settings": [["plain", "shared", "f", ["side", "below"], "X", ""], ["plain", "shared", "f", "below", "X", ""]],
    "different files": [["plain", "own", "f", "side", "X", ""], ["plain", "own", "h", "side", "X", ""]],
    "a loader fails at first": [["plain", "own", "f", "side", "X", "0"], ["plain", "own", "g", "side", "X", ""]],
    "a loader fails later": [["plain", "own", "f", "side", "X", "1"], ["plain", "own", "g", "side", "X", ""]],
    "without comments": [["plain", "own", "f", None, "X", ""], ["plain", "own", "g", "side", "X", ""]],
    "live and plain": [["live", "own", "f", "side", "X", ""], ["plain", "own", "g", "side", "X", ""]],
    "two live ones": [["live", "own", "f", "side", "X", ""], ["live", "own", "g", "side", "Y", ""]],
    "one live one twice": [["live", "shared", "f", "side", "X", ""], ["live", "shared", "g", "below", "Y", ""]],
    "three of them": [["plain", "own", "f", "side", "X", ""], ["plain", "own", "g", "side", "X", ""], ["plain", "shared", "f", "below", "X", ""]],
}
INITIAL = {"f": "1", "g": "2", "h": "3"}


class Controller:
    on = False

    def at(self, kind, path):
        if self.on:
            sched.current.point((kind, os.path.basename(str(path))[-8:]))
        return None

    def after(self, kind, path):
        pass

    def torn(self):
        pass


def bodies(bench, scenario):
    bench.reset()
    shared = {}
    out = []
    for gen, which, f, setting, name, broken in scenario:
        make = bench.sb.Plain if gen == "plain" else bench.sb.Live
        instance = make() if which == "own" else shared.setdefault(gen, make())

        def body(gen=gen, f=f, setting=setting, name=name, broken=broken, instance=instance):
            calls = []

            def load(path):
                calls.append(path)
                sched.current.point(("load",))
                if broken and len(calls) - 1 == int(broken):
                    raise ValueError("loader")
                data = bench.load(path)
                sched.current.point(("loaded",))
                return data

            return bench.call(gen, bench.path(f), setting, name, load, instance)

        out.append(body)
    return out


def judge_schedule(bench, case, s, rep):
    scenario = SCENARIOS[case["scenario"]]
    if s.deadlock:
        rep.violation(case, "deadlock", s.deadlock)
        return
    for i, (gen, _, f, setting, name, broken) in enumerate(scenario):
        got = s.result[i]
        if s.error[i] is not None or got is None:
            rep.violation(case, "raised", f"thread {i}: {s.error[i]!r}")
            continue
        if broken == "0":
            if got[0] != "raised" or not isinstance(got[1], ValueError):
                rep.violation(case, "raised", f"thread {i}: {got}")
            continue
        want = expect(gen, INITIAL[f], setting if not broken else None)
        want = (*want[:-1], want[-1].replace("X", name))
        if got != want:
            rep.violation(case, "result", f"thread {i}: expected {want}, got {got}")
    bad = bench.changes()
    if bad:
        rep.violation(case, "changed", bad)
    rep.seen("states", tuple(s.trace))


class Patched:
    def __init__(self, bench):
        self.bench = bench
        self.controller = Controller()

    def __enter__(self):
        self.seam = seam.Seam([self.bench.root], self.controller, reads=True, halves=True)
        self.seam.__enter__()
        return self

    def __exit__(self, *exc):
        self.controller.on = False
        self.seam.__exit__(*exc)


def lines_of(bench, mode):
    if mode is None:
        return None
    if mode == "calls":
        inside = bench.sb.package + os.sep
        return lambda f: "call" if f.startswith(inside) else False
    ends = ("yaml_file_modifier.py", "lazy_type_hint_abc.py")
    inside = bench.sb.package + os.sep
    return lambda f: "line" if f.startswith(inside) and f.endswith(ends) else False


def explorations(tier):
    for name, sc in SCENARIOS.items():
        big = len(sc) > 2
        if tier == "quick":
            yield name, 1 if big else 2, None
            if name in ("same file", "same name elsewhere", "same name, one instance", "same file, other settings", "one live one twice"):
                yield name, 1, "lines"
            if name == "same name, one instance":
                yield name, 1, "calls"
        else:
            yield name, 2 if big else 3, None
            yield name, 1, "lines"
            yield name, 1, "calls"


def controlled(bench, scenario, prefix, lines):
    with Patched(bench) as p:
        bs = bodies(bench, scenario)
        p.controller.on = True
        return sched.Scheduler(bs, prefix, lines).run()


def switches(steps):
    out = {}
    for k, (enabled, chosen, me) in enumerate(steps):
        if chosen != (me if me in enabled else enabled[0]):
            out[str(k)] = chosen
    return out


def warm(bench):
    for sc in SCENARIOS.values():
        for gen, which, f, setting, name, _ in sc:
            bench.reset()
            bench.call(gen, bench.path(f), setting, name)


def run(tier):
    ALONE.update(alone())
    quick = tier == "quick"
    simple = [(judge_fault, c) for c in fault_cases(tier)] + [(judge_loader, c) for c in loader_cases(tier)] + [(judge_named, c) for c in name_cases(tier)] + [(judge_history, c) for c in histories(3 if quick else 4)]
    parts = 8
    todo = [(k, *e) for e in sorted(explorations(tier), key=lambda e: (e[2] is None, e[1] < 2)) for k in range(parts)]
    position = multiprocessing.Value("i", 0)

    def take():
        with position.get_lock():
            position.value += 1
            return todo[position.value - 1] if position.value <= len(todo) else None

    def work(items, i, n, rep):
        bench = Bench()
        warm(bench)
        for judge, case in simple[i::n]:
            if rep.counts.get("executions", 0) % 499 == 0:
                rep.sample(case)
            termcheck.guarded(lambda c, r: judge(bench, c, r), case, rep)
            rep.count({"fault": "calls with faults at every operation", "loader": "misbehaving loaders", "named": "cases of names", "history": "histories"}[next(iter(case))])
        cores = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cores[i % len(cores)]})
        for part, name, bound, lines in iter(take, None):
            with Patched(bench) as p:

                def make():
                    p.controller.on = False
                    bs = bodies(bench, SCENARIOS[name])
                    p.controller.on = True
                    return bs

                def judge(s):
                    p.controller.on = False
                    case = {"scenario": name, "lines": lines, "schedule": switches(s.steps)}
                    judge_schedule(bench, case, s, rep)
                    if s.diverged:
                        rep.count("divergences")

                schedules, transitions = sched.explore(make, bound, judge, lines_of(bench, lines), (part, parts))
            rep.count("schedules", schedules)
            rep.count("transitions", transitions)
            rep.count(f"schedules {name}, {bound} preemptions" + (f", {lines}" if lines else ""), schedules)
        bench.close()

    rep = runner.parallel(work, None)
    c = rep.counts
    return rep, {
        "states": len(rep.sets.get("states", ())),
        "transitions": c.get("transitions", 0) + c.get("executions", 0),
        "traces_validated_against_impl": c.get("schedules", 0) + c.get("executions", 0) + c.get("histories", 0),
        "faults": c.get("faults", 0),
        "misbehaving_loaders": c.get("misbehaving loaders", 0),
        "named_files": c.get("named files", 0),
        "histories": c.get("histories", 0),
        "schedules": c.get("schedules", 0),
        "divergences": c.get("divergences", 0),
        "per_scenario": {k[10:]: v for k, v in c.items() if k.startswith("schedules ")},
        "rule": "every file operation of every listed call x every fault; every loader misbehaviour; every history of calls and edits up to the depth; every schedule within the preemption bound",
        "exhaustive": True,
    }


def replay(case, rep):
    ALONE.update(alone())
    bench = Bench()
    try:
        warm(bench)
        if "scenario" in case:
            prefix = []
            for k, who in sorted((int(k), w) for k, w in case["schedule"].items()):
                s = controlled(bench, SCENARIOS[case["scenario"]], prefix, lines_of(bench, case["lines"]))
                prefix = [c for _, c, _ in s.steps[:k]] + [who]
            s = controlled(bench, SCENARIOS[case["scenario"]], prefix, lines_of(bench, case["lines"]))
            judge_schedule(bench, case, s, rep)
            print("trace (thread, point):", s.trace[:300])
        else:
            judge = {"fault": judge_fault, "loader": judge_loader, "named": judge_named, "history": judge_history}[next(iter(case))]
            termcheck.guarded(lambda c, r: judge(bench, c, r), case, rep)
    finally:
        bench.close()
