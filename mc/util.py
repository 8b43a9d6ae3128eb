"""Shared harness code.  Only toffee's public API is used."""
import asyncio
import gc
import itertools
import logging
import zlib

import toffee
from toffee import logger as tlog

from .core import CaseTimeout, Violation
from .loop import Deadlock, Livelock, McLoop


class LogCap(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def errors(self):
        return [m for lv, m in self.records if lv in ("ERROR", "CRITICAL")]


CAP = LogCap()
_quiet = [None]


def quiet(level=logging.ERROR):
    """Route toffee's log into CAP only."""
    if _quiet[0] != level:
        toffee.setup_logging(level, console_display=False)
        toffee.get_logger().propagate = False
        _quiet[0] = level
    lg = toffee.get_logger()
    if CAP not in lg.handlers:
        lg.addHandler(CAP)
    CAP.records.clear()
    return CAP


def tup(x):
    """JSON round trip turns tuples into lists; bring them back."""
    if isinstance(x, (list, tuple)):
        return tuple(tup(v) for v in x)
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return x


_n = [0]


def _collect():
    """
    The cyclic collector is off while a case runs, so nothing depends on when it happens to run; finished tasks that
    hang in reference cycles are removed between the runs.
    """
    _n[0] += 1
    gc.collect(2 if _n[0] % 4 == 0 else 0)


class Outcome:
    __slots__ = ("kind", "value", "exc")

    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    def __repr__(self):
        return f"{self.kind}:{self.value!r}" if self.kind == "ok" else f"{self.kind}:{self.exc!r}"


def run(test, env_handle=None, schedule=None, reorderable=None, gc_at=None):
    """toffee.run under the controlled loop.  gc_at: the passes of the loop at which the cyclic collector runs."""
    McLoop.schedule, McLoop.reorderable, McLoop.gc_at = schedule, reorderable, gc_at
    quiet()
    if gc_at is not None:
        gc.collect()
        gc.freeze()  # what is there now need not be looked at again and again
    try:
        return Outcome("ok", toffee.run(test, env_handle))
    except Deadlock as e:
        return Outcome("deadlock", exc=e)
    except Livelock as e:
        return Outcome("livelock", exc=e)
    except (CaseTimeout, KeyboardInterrupt):
        raise
    except BaseException as e:
        return Outcome("exc", exc=e)
    finally:
        McLoop.schedule = McLoop.gc_at = None
        if gc_at is not None:
            gc.unfreeze()
        _collect()


def need_ok(out, dut=None, what="the run must end normally"):
    if dut is not None and getattr(dut, "horizon_hit", False):
        raise Violation(f"{what}: it never ended (horizon of {dut.horizon} clock cycles)")
    if out.kind != "ok":
        raise Violation(f"{what}: {out!r}")
    return out.value


def words(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def compositions(total, parts):
    """All tuples of `parts` non-negative ints with the given sum."""
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


async def clk(dut, n=1):
    """A harness-side clock wait that does not go through the code under test's helpers."""
    for _ in range(n):
        await dut.event.wait()


TASK_NAMES = (None, "clock {}", "main_{}", "my__clock_loop", "__clock_loop_{}", "main_coro {}", "Task", "monitor", "")


def user_named(task, case, i=0):
    """Give a task of the program under check a name of its own: names mean nothing to the scheduler.  All tasks of one case
    get names of the same kind, which is chosen by the case."""
    form = TASK_NAMES[zlib.crc32(repr(case).encode()) % len(TASK_NAMES)]
    if form is not None:
        task.set_name(form.format(i))
    return task
