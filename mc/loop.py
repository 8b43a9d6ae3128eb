"""A controlled asyncio event loop: virtual time, deadlock and livelock detection, schedule control."""
import asyncio
import gc
import itertools
import logging


class Deadlock(BaseException):
    """Nothing is runnable, nothing is scheduled: the run can never end."""


class Livelock(BaseException):
    """The loop keeps spinning without a clock cycle and without ending."""


class _NullSelector:
    def select(self, timeout=None):
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


SPIN_LIMIT = 3000


class Schedule:
    """Choices at the points where several harness tasks are ready in one pass; default choice is 0 (FIFO)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []  # number of alternatives at every point
        self.choices = []

    def choose(self, n):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("schedule replay diverged")
        self.points.append(n)
        self.choices.append(c)
        return c


class McLoop(asyncio.BaseEventLoop):
    schedule = None  # class attributes, set per run
    reorderable = None  # predicate: task -> bool
    gc_at = None  # numbers of the passes at whose start the cyclic garbage collector runs; "all" for every pass

    def __init__(self):
        super().__init__()
        self._selector = _NullSelector()
        self._vt = 0.0
        self._spins = 0
        self.passes = 0

    def time(self):
        return self._vt

    def note_step(self):
        self._spins = 0

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        if not self._ready:
            if not self._scheduled:
                if not self._stopping:
                    raise Deadlock()
            else:
                when = min(h._when for h in self._scheduled)
                if when > self._vt:
                    self._vt = when
        if McLoop.gc_at is not None:
            self.passes = McLoop.passes = self.passes + 1
            if McLoop.gc_at == "all" or self.passes in McLoop.gc_at:
                gc.collect()
        self._spins += 1
        if self._spins > SPIN_LIMIT:
            self._spins = 0
            raise Livelock()
        if McLoop.schedule is not None and len(self._ready) > 1:
            self._reorder()
        super()._run_once()

    def _reorder(self):
        ready = self._ready
        pos, hs = [], []
        pred = McLoop.reorderable
        for i, h in enumerate(ready):
            t = getattr(h._callback, "__self__", None)
            if isinstance(t, asyncio.Task) and pred(t):
                pos.append(i)
                hs.append(h)
        k = len(hs)
        if k < 2:
            return
        if k <= 3:
            perms = _PERMS[k]
            c = McLoop.schedule.choose(len(perms))
            order = perms[c]
        else:
            c = McLoop.schedule.choose(k)
            order = (c,) + tuple(i for i in range(k) if i != c)
        if c:
            lst = list(ready)
            for p, o in zip(pos, order):
                lst[p] = hs[o]
            ready.clear()
            ready.extend(lst)


_PERMS = {k: list(itertools.permutations(range(k))) for k in (2, 3)}


class _Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return McLoop()


def install():
    asyncio.set_event_loop_policy(_Policy())
    lg = logging.getLogger("asyncio")
    lg.setLevel(logging.CRITICAL + 10)
    lg.propagate = False
    lg.addHandler(logging.NullHandler())


def explore_schedules(run, bound, limit=None):
    """
    Depth-first enumeration of all schedules with at most `bound` deviations from FIFO.
    run(schedule) executes once.  Yields the schedule after each execution.  Returns when exhausted.
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        s = Schedule(prefix)
        run(s)
        n += 1
        yield s
        if limit and n >= limit:
            return
        dev = sum(1 for c in prefix if c)
        if dev < bound:
            for i in range(len(s.points) - 1, len(prefix) - 1, -1):
                for alt in range(s.points[i] - 1, 0, -1):
                    stack.append(tuple(s.choices[:i]) + (alt,))
