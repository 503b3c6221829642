"""The file-system seam: every call that can change files goes through
`Seam.point(kind, path)` first, and file contents are written in separable
steps, so that a controller can stop, fail or reorder them.

Patched: open (io/builtins), os.open, os.write, os.replace, os.rename,
os.remove, os.unlink, os.mkdir, os.rmdir, os.link, os.symlink, os.truncate,
os.ftruncate, os.utime-free.  Only paths below `roots` count.
"""
import builtins
import io
import os

REAL = {name: getattr(os, name) for name in ("open", "write", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "link", "symlink", "truncate", "ftruncate", "stat", "close")}
real_open = io.open


class Crash(BaseException):
    """The process died here: every later effect is impossible too."""


class Seam:
    """controller.at(kind, path) runs before an effect, controller.after(kind,
    path) after it; kinds: create, content, rename, remove, mkdir, rmdir, read."""

    def __init__(self, roots, controller, reads=False, halves=False):
        """reads: reading is an effect too; halves: contents are written in two
        steps."""
        self.roots = tuple(os.path.realpath(r) + os.sep for r in roots)
        self.controller = controller
        self.reads = reads
        self.halves = halves
        self.fds = {}

    def inside(self, path, dir_fd=None):
        if isinstance(path, int):
            return path in self.fds
        if dir_fd is not None:
            base = os.readlink(f"/proc/self/fd/{dir_fd}")
            path = os.path.join(base, os.fspath(path))
        p = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(path))))
        return (p + os.sep).startswith(self.roots)

    def __enter__(self):
        c = self.controller

        def hooked(name, kind, which=0):
            real = REAL[name]

            def call(*a, **k):
                dir_fd = k.get("dir_fd", k.get("src_dir_fd"))
                target = a[which] if len(a) > which else None
                if target is None or not (self.inside(target, dir_fd) or self.inside(a[0], dir_fd)):
                    return real(*a, **k)
                c.at(kind, os.fspath(target) if not isinstance(target, int) else self.fds[target])
                r = real(*a, **k)
                c.after(kind, target)
                return r

            return call

        self.saved = {}
        for name, kind, which in [("replace", "rename", 1), ("rename", "rename", 1), ("remove", "remove", 0), ("unlink", "remove", 0), ("mkdir", "mkdir", 0), ("rmdir", "rmdir", 0), ("link", "rename", 1), ("symlink", "rename", 1), ("truncate", "content", 0), ("ftruncate", "content", 0)]:
            self.saved[name] = getattr(os, name)
            setattr(os, name, hooked(name, kind, which))

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if not self.inside(path, dir_fd):
                return REAL["open"](path, flags, mode, dir_fd=dir_fd)
            creates = flags & (os.O_CREAT | os.O_TRUNC)
            if creates:
                c.at("create", os.fspath(path))
            fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
            if flags & (os.O_WRONLY | os.O_RDWR):
                self.fds[fd] = os.fspath(path)
            if creates:
                c.after("create", path)
            return fd

        def os_write(fd, data):
            if fd not in self.fds:
                return REAL["write"](fd, data)
            self.content(lambda part: REAL["write"](fd, part), bytes(data), self.fds[fd])
            return len(data)

        def os_close(fd):
            self.fds.pop(fd, None)
            return REAL["close"](fd)

        self.saved.update(open=os.open, write=os.write, close=os.close)
        os.open, os.write, os.close = os_open, os_write, os_close

        def py_open(file, mode="r", *a, **k):
            writes = isinstance(mode, str) and any(x in mode for x in "wax+")
            if not self.inside(file):
                return real_open(file, mode, *a, **k)
            path = self.fds[file] if isinstance(file, int) else os.fspath(file)
            if not writes:
                if self.reads:
                    c.at("read", path)
                return real_open(file, mode, *a, **k)
            if isinstance(file, int):
                self.fds.pop(file)
            c.at("create", path)
            h = real_open(file, mode, *a, **k)
            c.after("create", path)
            return Writer(self, h, path, "b" in mode)

        self.saved_open = (io.open, builtins.open)
        io.open = builtins.open = py_open
        return self

    def __exit__(self, *exc):
        for name, f in self.saved.items():
            setattr(os, name, f)
        io.open, builtins.open = self.saved_open

    def content(self, write, data, path):
        """Write data, possibly torn by the controller."""
        keep = self.controller.at("content", path)
        if keep is not None:  # only this share of it reaches the file
            write(data[: int(len(data) * keep)])
            return "torn"
        if self.halves and len(data) > 1:
            write(data[: len(data) // 2])
            self.controller.after("content", path)
            self.controller.at("content", path)
            data = data[len(data) // 2 :]
        write(data)
        self.controller.after("content", path)
        return None


class Writer:
    """A file opened for writing whose content reaches the disk at flush."""

    def __init__(self, seam, handle, path, binary):
        self._seam, self._h, self._path = seam, handle, path
        self._buf = b"" if binary else ""
        self._closed = False

    def write(self, data):
        if isinstance(self._buf, bytes):
            data = bytes(data)
        self._buf += data
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if self._buf:
            buf, self._buf = self._buf, self._buf[:0]

            def write(part):
                self._h.write(part)
                self._h.flush()

            if self._seam.content(write, buf, self._path) == "torn":
                self._h.close()
                self._closed = True
                self._seam.controller.torn()

    def close(self):
        if not self._closed:
            try:
                self.flush()
            finally:
                self._closed = True
                self._h.close()

    @property
    def closed(self):
        return self._closed

    def __enter__(self):
        return self

    def __exit__(self, kind, exc, tb):
        if kind is not None and issubclass(kind, Crash):
            self._closed = True
            self._h.close()
            return
        self.close()

    def __del__(self):
        if not self._closed:
            self._h.close()

    def __getattr__(self, name):
        self.flush()
        return getattr(self._h, name)

    def __iter__(self):
        return iter(self._h)


class Recorder:
    """Lets everything happen and lists the effects."""

    def __init__(self):
        self.effects = []

    def at(self, kind, path):
        self.effects.append((kind, path))

    def after(self, kind, path):
        pass

    def torn(self):
        pass


class Stopper:
    """Stops at effect number n: by dying before it ('crash'), by dying in the
    middle of a write (share of the content), or by failing it once ('fail')."""

    def __init__(self, n, how, share=0.5):
        self.n, self.how, self.share = n, how, share
        self.count = 0
        self.dead = False
        self.hit = None

    def at(self, kind, path):
        if self.dead:
            raise Crash
        k = self.count
        self.count += 1
        if k != self.n:
            return None
        self.hit = (kind, path)
        if self.how == "crash":
            self.dead = True
            raise Crash
        if self.how == "torn":
            if kind != "content":
                self.dead = True
                raise Crash
            self.dead = True
            return self.share
        if self.how == "full":  # no space left: part of the content is written
            if kind == "content":
                return self.share
        raise OSError(28, "No space left on device", path)

    def after(self, kind, path):
        pass

    def torn(self):
        if self.how == "torn":
            raise Crash
        raise OSError(28, "No space left on device")
