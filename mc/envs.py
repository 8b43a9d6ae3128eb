"""Environments and reference models built from JSON specifications.

An element of a model is [kind, form, opts]:
  kind  dh / ah / mh  driver, agent, monitor hook;  dp / ap / mp  the corresponding ports
  dh, dp, mh, mp forms:  name (agent__method), path, ag (agent_name + own name), agm (agent_name + method name)
  ah, ap forms:          name (own name), an (agent_name), lists (agents and/or methods)
  opts: a (agent), m (method), agents, methods, prio, order, size
"""
import inspect

from toffee import Agent, AgentPort, Bundle, DriverPort, Env, Model, MonitorPort, Signals
from toffee import agent_hook, driver_hook, driver_method, monitor_hook, monitor_method

from . import fake


class B(Bundle):
    a, b = Signals(2)


def attr_name(elem, i):
    kind, form, o = elem
    if kind in ("ah", "ap"):
        return o["a"] if form == "name" else f"e{i}"
    return {"name": f"{o['a']}__{o['m']}", "path": f"e{i}", "ag": o["m"], "agm": f"e{i}"}[form] if form != "name" else f"{o['a']}__{o['m']}"


def fits_names(elems):
    names = [attr_name(e, i) for i, e in enumerate(elems)]
    return len(set(names)) == len(names)


def matches(elem, agent, method):
    kind, form, o = elem
    if kind in ("ah", "ap"):
        if form in ("name", "an"):
            return agent == o["a"] or f"{agent}.{method}" in o.get("methods", ())
        return agent in o.get("agents", ()) or f"{agent}.{method}" in o.get("methods", ())
    return (agent, method) == (o["a"], o["m"])


def one_claim_each(elems, methods, mix=False):
    """No two hooks or ports of one kind claim the same driver or monitor method, and no method has hooks and ports (unless mix)."""
    for ag, m in methods:
        ks = [e[0] for e in elems if matches(e, ag, m)]
        if any(ks.count(k) > 1 for k in ("dh", "dp", "mh", "mp")):
            return False
        if not mix and {"dh", "ah"} & set(ks) and {"dp", "ap"} & set(ks):
            return False
    return True


def _kw(o, *names):
    return {n: o[k] for k, n in (("prio", "priority"), ("order", "sche_order"), ("size", "maxsize")) if n in names and k in o}


def make_port(elem):
    kind, form, o = elem
    kw = _kw(o, "maxsize")
    if kind == "ap":
        args = (o["a"],) if form == "an" else ()
        for k in ("agents", "methods"):
            if form != "name" and k in o:
                kw[k] = list(o[k])
        return AgentPort(*args, **kw)
    c, mname = (DriverPort, "driver_name") if kind == "dp" else (MonitorPort, "monitor_name")
    args = ()
    if form == "path":
        args = (f"{o['a']}.{o['m']}",)
    elif form in ("ag", "agm"):
        kw["agent_name"] = o["a"]
        if form == "agm":
            kw[mname] = o["m"]
    return c(*args, **kw)


def make_model(elems, sink, index=0, main=None, base=Model, rets=None, share=False):
    """sink(elem_index, *what) is called by hooks as sink(i, 'hook', args, kwargs) and returns the hook's result.

    share: hooks declared with the same arguments are decorated with one decorator object.
    An instance of the class may have a sink of its own.
    """
    ns, ports, decs = {}, {}, {}

    def decorator(dec, *args, **kw):
        if not share:
            return dec(*args, **kw)
        return decs.setdefault(repr((dec.__name__, args, kw)), dec(*args, **kw))

    def hookfn(i, name):
        def h(self, *args, **kwargs):
            return getattr(self, "sink", sink)(i, args, kwargs)

        h.__name__ = h.__qualname__ = name
        return h

    for i, (kind, form, o) in enumerate(elems):
        name = attr_name([kind, form, o], i)
        if kind in ("dh", "mh"):
            dec, kwn, mname = (driver_hook, ("priority", "sche_order"), "driver_name") if kind == "dh" else (monitor_hook, ("priority",), "monitor_name")
            kw = _kw(o, *kwn)
            args = ()
            if form == "path":
                args = (f"{o['a']}.{o['m']}",)
            elif form in ("ag", "agm"):
                kw["agent_name"] = o["a"]
                if form == "agm":
                    kw[mname] = o["m"]
            ns[name] = decorator(dec, *args, **kw)(hookfn(i, name))
        elif kind == "ah":
            kw = _kw(o, "priority", "sche_order")
            args = (o["a"],) if form == "an" else ()
            for k in ("agents", "methods"):
                if form != "name" and k in o:
                    kw[k] = list(o[k])
            ns[name] = decorator(agent_hook, *args, **kw)(hookfn(i, name))
        else:
            ports[name] = (kind, form, o)
    if main is not None:
        ns["main"] = main

    def init(self):
        super(cls, self).__init__()
        for name, elem in ports.items():
            setattr(self, name, make_port(elem))

    ns["__init__"] = init
    cls = type(f"M{index}", (base,), ns)
    return cls


def make_models(lists, sink_of, **kw):
    """Models for lists of elements; those with the same elements are instances of one class."""
    classes = {}
    for mi, elems in enumerate(lists):
        key = repr(elems)
        if key not in classes:
            classes[key] = make_model(elems, None, mi, **kw)
        m = classes[key]()
        m.sink = sink_of(mi)
        yield m


def port_of(model, elem, i):
    return getattr(model, attr_name(elem, i))


def drain(port):
    out = []
    while not port.empty():
        out.append(port.get_nowait())
    return out


def make_driver(name, sig, body):
    """async def name(self, <sig>) whose body is body(self, name, bound arguments)."""
    ns = {"_body": body}
    me = "self"
    if sig.startswith("@"):  # a method that calls its instance something else
        me, sig = sig[1:].split("|")
    src = f"async def {name}({me}{', ' + sig if sig else ''}):\n    _l = dict(locals()); _s = _l.pop({me!r})\n    return await _body(_s, {name!r}, _l)\n"
    exec(src, ns)
    return ns[name]


def make_agent(drivers=None, monitors=None, index=0):
    """drivers: {name: (sig, body)}, monitors: {name: async fn(self)}."""
    ns = {}
    for n, (sig, body) in (drivers or {}).items():
        ns[n] = driver_method()(make_driver(n, sig, body))
    for n, f in (monitors or {}).items():
        async def g(self, _f=f):
            return await _f(self)

        g.__name__ = g.__qualname__ = n
        ns[n] = monitor_method()(g)
    return type(f"Ag{index}", (Agent,), ns)


def user_agent(base, style, drivers=None, note=None, monitors=()):
    """An agent class as users write them, derived from base.

    style  prop: it has properties, some of which are not ready while the agent is created
           ref:  it keeps driver methods of another agent as attributes
           super, super2: it overrides its driver methods (once, twice) and calls the overridden ones; note(name, bound) is called by each override
           mixin: its driver methods come from a second base class
           step: it is created with the bundle's step method (deprecated)
    """
    drivers = drivers or {}
    if style == "prop":

        def late(self):
            return self._not_there_yet

        def boom(self):
            raise ValueError("evaluated too early")

        def fine(self):
            return 3

        return type(base.__name__ + "P", (base,), {"a_late": property(late), "m_boom": property(boom), "zz_fine": property(fine), "count": 0})
    if style == "step":

        def init_step(self, bundle):
            self.bundle = bundle
            super(scls, self).__init__(bundle.step)

        scls = type(base.__name__ + "T", (base,), {"__init__": init_step})
        return scls
    if style == "ref":

        async def nobody(*_):
            return None

        idle = make_agent({n: ("", nobody) for n in drivers}, {n: nobody for n in monitors})

        def init(self, bundle):
            other = idle(bundle)
            self.first = getattr(other, [*drivers, *monitors][0])
            for n in (*drivers, *monitors):
                setattr(self, "a_" + n, getattr(other, n))
                setattr(self, "zz_" + n, getattr(other, n))
            super(cls, self).__init__(bundle)
            self.last = self.first

        cls = type(base.__name__ + "R", (base,), {"__init__": init})
        return cls
    if style == "mixin":
        return type(base.__name__ + "X", (type("Plain", (Agent,), {}),), {k: v for k, v in vars(base).items() if not k.startswith("__")})
    for level in range(2 if style == "super2" else 1):
        ns, box = {}, {}
        for n, (sig, _) in drivers.items():

            async def body(self, name, bound, box=box):
                note(name, dict(bound))
                return await getattr(super(box["cls"], self), name)(**bound)

            ns[n] = driver_method()(make_driver(n, sig, body))
        for n in monitors:

            async def mon(self, n=n, box=box):
                note(n, {})
                return await getattr(super(box["cls"], self), n)()

            mon.__name__ = mon.__qualname__ = n
            ns[n] = monitor_method()(mon)
        base = box["cls"] = type(f"{base.__name__}S{level}", (base,), ns)
    return base


def make_env(agents, bundle_of):
    """agents: {attribute name: agent class}."""

    def init(self):
        super(cls, self).__init__()
        for n, c in agents.items():
            setattr(self, n, c(bundle_of(n)))

    cls = type("E", (Env,), {"__init__": init})
    return cls


def bind_args(sig, args, kwargs):
    """What the call's arguments bind to, defaults included."""
    ns = {}
    sig = sig.split("|")[-1]
    exec(f"def f({sig}): return dict(locals())", ns)
    return ns["f"](*args, **kwargs)


def new_dut(horizon=40, wave=None, pins=("a", "b")):
    return fake.DUT(pins, horizon=horizon, wave=wave)
