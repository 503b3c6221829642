"""A cooperative scheduler for real threads, and the preemption-bounded
exploration of all their schedules.

Exactly one thread runs at a time; at every scheduling point the controller
picks who continues.  A schedule is the list of choices, so any run can be
repeated.  `explore` enumerates every schedule with at most `bound` switches
away from a thread that could have continued.
"""
import _thread
import sys
import threading as real

real_Lock, real_RLock = real.Lock, real.RLock
current = None  # the active Scheduler
STEP_SECONDS = 60


class Stop(BaseException):
    """Unwinds a thread of an abandoned run."""


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, bodies, prefix=(), lines=None):
        self.bodies = bodies
        self.prefix = list(prefix)
        self.lines = lines  # file name -> whether its lines are scheduling points
        self.n = len(bodies)
        self.go = [_thread.allocate_lock() for _ in bodies]
        self.main = _thread.allocate_lock()
        for baton in [*self.go, self.main]:
            baton.acquire()
        self.waiting = [None] * self.n  # callable: may the thread continue?
        self.done = [False] * self.n
        self.error = [None] * self.n
        self.result = [None] * self.n
        self.steps = []  # (enabled, chosen, who was running)
        self.trace = []
        self.ids = {}
        self.moves = 0
        self.stopping = False
        self.deadlock = None
        self.diverged = False
        self.muted = set()

    # -- called by controlled threads

    def me(self):
        return self.ids.get(real.get_ident())

    def point(self, label=None):
        me = self.me()
        if me is None or me in self.muted or self.stopping:
            return
        self.trace.append((me, label))
        self.switch(me)

    def block(self, ready, label):
        """Continue only once ready() holds."""
        me = self.me()
        self.trace.append((me, label))
        self.waiting[me] = ready
        self.switch(me)
        self.waiting[me] = None

    def pause(self, label):
        """Continue only after another thread has moved, if there is any."""
        me = self.me()
        if me is None or me in self.muted:
            return
        before = self.moves
        self.block(lambda: self.moves > before + 1 or all(d or i == me for i, d in enumerate(self.done)), label)

    def enabled(self):
        return [i for i in range(self.n) if not self.done[i] and (self.waiting[i] is None or self.waiting[i]())]

    def switch(self, me):
        self.moves += 1
        nxt = self.choose(me)
        if nxt == me:
            return
        if nxt is None:
            self.main.release()
        else:
            self.go[nxt].release()
        if me is not None and not self.done[me]:
            self.go[me].acquire()
            if self.stopping:
                raise Stop

    def choose(self, me):
        enabled = self.enabled()
        if not enabled:
            if not all(self.done):
                self.deadlock = [(i, self.trace[-1]) for i in range(self.n) if not self.done[i]]
            return None
        k = len(self.steps)
        if k < len(self.prefix) and self.prefix[k] in enabled:
            chosen = self.prefix[k]
        elif k < len(self.prefix):
            self.diverged = True
            chosen = enabled[0]
        elif me in enabled:
            chosen = me
        else:
            chosen = enabled[0]
        self.steps.append((enabled, chosen, me))
        return chosen

    # -- run

    def _thread(self, i):
        self.ids[real.get_ident()] = i
        self.go[i].acquire()
        if self.stopping:
            return
        if self.lines is not None:
            sys.settrace(self._global_trace)
        try:
            self.result[i] = self.bodies[i]()
        except Stop:
            return
        except BaseException as e:  # noqa: BLE001
            self.error[i] = e
        finally:
            sys.settrace(None)
        if self.stopping:
            return
        self.done[i] = True
        self.switch(i)

    def _global_trace(self, frame, event, arg):
        if event == "call":
            how = self.lines(frame.f_code.co_filename)
            if how == "call":
                self.point(("call", frame.f_code.co_name))
            elif how:
                return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line":
            self.point(("line", frame.f_lineno))
        return self._local_trace

    def run(self):
        global current
        current = self
        threads = [real.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        try:
            first = self.choose(None)
            self.go[first].release()
            if not self.main.acquire(timeout=STEP_SECONDS):
                raise RuntimeError(f"a controlled run got stuck outside the scheduler; last points: {self.trace[-5:]}")
        finally:
            self.stopping = True
            for i in range(self.n):
                if not self.done[i] and self.go[i].locked():
                    self.go[i].release()
            for t in threads:
                t.join(5)
            current = None
        return self


class FakeLock:
    """Stands in for threading.Lock / RLock in the code under test."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _who(self):
        return real.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s, me = current, self._who()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        if s is not None and s.me() is not None:
            s.point(("acquire",))
            if self.owner is not None:
                if not blocking or timeout >= 0:
                    return False
                s.block(lambda: self.owner is None, ("blocked",))
        elif self.owner is not None:
            raise RuntimeError("an uncontrolled thread would block")
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None or self.reentrant and self.owner != self._who():
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = current
            if s is not None:
                s.point(("release",))

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class FakeRLock(FakeLock):
    reentrant = True


class FakeThreading:
    """The threading module as the code under test sees it."""

    Lock, RLock = FakeLock, FakeRLock

    def __getattr__(self, name):
        return getattr(real, name)


def faked_locks(load, modules):
    """Run load() such that the locks the loaded modules create are fakes."""
    real.Lock, real.RLock = FakeLock, FakeRLock
    try:
        load()
    finally:
        real.Lock, real.RLock = real_Lock, real_RLock
    for m in modules():
        for k, v in list(vars(m).items()):
            if v is real:
                setattr(m, k, FakeThreading())


def preemptions(steps):
    return sum(1 for enabled, chosen, me in steps if me in enabled and chosen != me)


def explore(make, bound, judge, lines=None, part=(0, 1)):
    """make() -> bodies of a fresh initial state; judge(scheduler) after each
    run.  part=(i, n) explores the i-th share of the subtrees below the first
    run.  Returns (schedules, transitions)."""
    stack = [()]
    schedules = transitions = 0
    while stack:
        prefix = stack.pop()
        s = Scheduler(make(), prefix, lines).run()
        if prefix or part[0] == 0:
            schedules += 1
            transitions += len(s.steps)
            judge(s)
        fresh = []
        for i in range(len(s.steps) - 1, len(prefix) - 1, -1):
            enabled, chosen, me = s.steps[i]
            used = preemptions(s.steps[:i])
            for alt in enabled:
                if alt == chosen:
                    continue
                if used + (1 if me in enabled and alt != me else 0) <= bound:
                    fresh.append(tuple(c for _, c, _ in s.steps[:i]) + (alt,))
        stack += fresh if prefix else fresh[part[0] :: part[1]]
    return schedules, transitions
