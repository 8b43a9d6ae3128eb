"""A fake DUT with the duck type of the classes picker generates (pins, clock event, Step, StepRis)."""
import asyncio


class Horizon(Exception):
    """The run went on beyond the number of clock cycles any correct run of this case can need."""


class XData:
    def __init__(self, name="", width=8, out=False, value=0, log=None):
        d = self.__dict__
        d["_name"], d["_w"], d["_out"], d["_v"], d["_log"] = name, width, out, value, log

    def W(self):
        return self._w

    def IsOutIO(self):
        return self._out

    def IsInIO(self):
        return not self._out

    @property
    def value(self):
        return self.__dict__["_v"]

    @value.setter
    def value(self, v):
        if self._log is not None:
            self._log.append((self._name, v))
        self.__dict__["_v"] = v

    def AsImmWrite(self):
        self.__dict__["mode"] = "imme"

    def AsRiseWrite(self):
        self.__dict__["mode"] = "rise"

    def AsFallWrite(self):
        self.__dict__["mode"] = "fall"


class XPin:
    """Delegates everything but the clock event to its XData, as picker's XPin does."""

    def __init__(self, xdata, event):
        self.__dict__["xdata"] = xdata
        self.__dict__["event"] = event

    def __getattr__(self, name):
        return getattr(self.__dict__["xdata"], name)

    def __setattr__(self, name, value):
        if name in ("xdata", "event"):
            self.__dict__[name] = value
        else:
            setattr(self.__dict__["xdata"], name, value)


class DUT:
    """
    pins: iterable of names or (name, kwargs) pairs.
    wave: {pin name: [value before edge 1, value after edge 1, value after edge 2, ...]} (last value is held).
    """

    def __init__(self, pins=(), horizon=200, wave=None, log_writes=False):
        self.event = asyncio.Event()
        self.n = 0
        self.horizon = horizon
        self.horizon_hit = False
        self._cbs = []
        self._before = []
        self._pins = {}
        self.writes = [] if log_writes else None
        self._wave = wave or {}
        for p in pins:
            name, kw = (p, {}) if isinstance(p, str) else p
            x = XPin(XData(name, log=self.writes, **kw), self.event)
            self._pins[name] = x
            setattr(self, name, x)
        for k, w in self._wave.items():
            self._pins[k].xdata.__dict__["_v"] = w[0]

    def before_step(self, f):
        self._before.append(f)

    def StepRis(self, cb, args=(), kwargs={}):
        self._cbs.append((cb, args, kwargs))

    def Step(self, k=1):
        for _ in range(k):
            for f in self._before:
                f(self.n)
            self.n += 1
            if self.n > self.horizon:
                self.horizon_hit = True
                raise Horizon(f"more than {self.horizon} clock cycles")
            for name, w in self._wave.items():
                self._pins[name].xdata.__dict__["_v"] = w[min(self.n, len(w) - 1)]
            loop = _running()
            if loop is not None:
                loop.note_step()
            for cb, a, kw in self._cbs:
                cb(self.n, *a, **kw)

    def peek(self, name):
        return self._pins[name].xdata.__dict__["_v"]

    def poke(self, name, v):
        self._pins[name].xdata.__dict__["_v"] = v

    def snapshot(self):
        return {k: p.xdata.__dict__["_v"] for k, p in self._pins.items()}


def _running():
    loop = asyncio._get_running_loop()
    return loop if hasattr(loop, "note_step") else None
