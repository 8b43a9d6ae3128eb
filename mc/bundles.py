"""Bundle structures from JSON specifications, with an independent reference for what they connect to.

struct = {"rule": [kind, value], "sigs": [names], "decl": "attr"|"list"|"cls"|"xport" (made from a list or a port by Bundle itself),
          "sl": [[name, format, limit, fn]], "sub": [[name, struct]], "bl": [[name, format, limit, struct(, fn)]], "props": 1, "mode": write mode of the template}
props: the class has properties (using signals, returning parts of the bundle, or never ready)
rule kinds: "p" prefix, "r" regex (value: index into REGEX), "d" dictionary (value: style), None (no rule given)
fn: None or the name of an index function in FN
"""
import re

from toffee import Bundle, BundleList, Signal, SignalList, Signals, WriteMode

REGEX = (
    (r"^io_(.*)$", lambda n: "io_" + n),
    (r"^(.*)_q$", lambda n: n + "_q"),
    (r"^in_(.)(.*)_z$", lambda n: "in_" + n + "_z"),
    (r"^v(\d+)?_(.*)", lambda n: "v_" + n),
    (r"bits_(.*)", lambda n: "top_bits_" + n),
    (r"^([a-z])__(.?)__(.?)(.*)$", lambda n: f"{n[:1]}__{n[1:2]}__{n[2:]}"),
)
FN = {None: lambda i: str(i), "hex": lambda i: format(i, "x"), "plus": lambda i: str(i + 1), "pad": lambda i: f"{i:02d}", "rev": lambda i: "zyxwvutsrqponm"[i]}


def leaves_here(st):
    """[(path, name at this level)] of the level's own signals."""
    out = [(n, n) for n in st.get("sigs", ())]
    for name, fmt, limit, fn in st.get("sl", ()):
        out += [(f"{name}[{i}]", fmt.replace("#", FN[fn](i))) for i in range(limit)]
    return out


def children(st):
    """[(path, struct with its effective rule)]."""
    out = list(st.get("sub", ()))
    for name, fmt, limit, s, *fn in st.get("bl", ()):
        out += [(f"{name}[{i}]", {**s, "rule": ["p", fmt.replace("#", FN[fn[0] if fn else None](i))]}) for i in range(limit)]
    return [(p, s) for p, s in out]


def dict_of(st, style, level=()):
    """The dictionary of a "d" level: every name needed below -> an artificial DUT name (or the given dictionary)."""
    if isinstance(style, dict):
        return style
    names = [n for _, n in leaves_here(st)]
    for p, c in children(st):
        names += [n for _, n in incoming(c) if n is not None]
    d = {}
    for i, n in enumerate(names):
        if style == "part" and i == len(names) - 1 and len(names) > 1:
            continue
        if style == "swap":
            d[n] = names[(i + 1) % len(names)]
        elif style == "same":
            d[n] = n
        else:
            d[n] = f"W{i}_{n}"
    return d


def incoming(st):
    """[(path, name a pin must have at the entrance of this level to reach the leaf, or None)]."""
    inner = list(leaves_here(st))
    for p, c in children(st):
        inner += [(f"{p}.{q}", n) for q, n in incoming(c)]
    kind, val = st["rule"] or ("p", "")
    out = []
    for p, n in inner:
        if n is None:
            out.append((p, None))
        elif kind == "p":
            out.append((p, val + n))
        elif kind == "r":
            out.append((p, REGEX[val][1](n)))
        else:
            out.append((p, dict_of(st, val).get(n)))
    return out


def forward(st, pin):
    """All leaf paths that the composed rules map the pin to."""
    kind, val = st["rule"] or ("p", "")
    if kind == "p":
        if not pin.startswith(val):
            return []
        n = pin[len(val):]
    elif kind == "r":
        m = re.search(REGEX[val][0], pin)
        if m is None:
            return []
        n = "".join(g or "" for g in m.groups())
    else:
        ks = [k for k, v in dict_of(st, val).items() if v == pin]
        if not ks:
            return []
        n = ks[0]
    out = [p for p, x in leaves_here(st) if x == n]
    for p, c in children(st):
        out += [f"{p}.{q}" for q in forward(c, n)]
    return out


def all_leaves(st):
    return [p for p, _ in incoming(st)]


def build(st, base=Bundle, name="Top"):
    """The bundle class of a structure."""
    ns = {}
    sigs = list(st.get("sigs", ()))
    decl = st.get("decl")
    if decl == "list":
        ns["signals"] = sigs
    elif decl == "cls":
        base = Bundle.new_class_from_list(sigs)
        if st.keys() <= {"rule", "sigs", "decl"}:
            return base
    elif decl == "xport":
        base = Bundle.new_class_from_xport(type("XPort", (), {"GetKeys": lambda self: list(sigs)})())
    elif sigs:
        if len(sigs) == 1:
            ns[sigs[0]] = Signal()
        else:
            for n, s in zip(sigs, Signals(len(sigs))):
                ns[n] = s
    for n, fmt, limit, fn in st.get("sl", ()):
        ns[n] = SignalList(fmt, limit) if fn is None else SignalList(fmt, limit, FN[fn])
    for n, s in st.get("sub", ()):
        ns[n] = instance(build(s, name=f"{name}_{n}"), s)
        if s.get("mode"):
            ns[n].set_write_mode(getattr(WriteMode, s["mode"]))
    for n, fmt, limit, s, *fn in st.get("bl", ()):
        cls = build(s, name=f"{name}_{n}")
        ns[n] = BundleList(cls, fmt, limit, FN[fn[0]]) if fn else BundleList(cls, fmt, limit)
    if st.get("props"):
        ns.update(properties(st))
    return type(name, (base,), ns)


def properties(st):
    """Properties as users define them; nobody but the user may need their values."""

    def boom(self):
        raise RuntimeError("not now")

    def fire(self):
        return all(getattr(self, n).value for n in st.get("sigs", ()))

    parts = [n for n in (*st.get("sigs", ()), *(x[0] for k in ("sl", "sub", "bl") for x in st.get(k, ())))]
    ns = {"A_boom": property(boom), "zz_fire": property(fire), "zz_const": property(lambda self: 5), "zz_unset": property(lambda self: self._not_there)}
    for i, n in enumerate(parts):
        ns[f"zz_part{i}"] = property(lambda self, n=n: getattr(self, n))
        ns[f"A_part{i}"] = property(lambda self, n=n: getattr(self, n))
    for x in (*st.get("sl", ()), *st.get("bl", ())):
        ns[f"zz_first_{x[0]}"] = property(lambda self, n=x[0]: getattr(self, n)[0])
    return ns


def instance(cls, st, how="from"):
    rule = st["rule"]
    if rule is None:
        return cls()
    kind, val = rule
    v = {"p": lambda: val, "r": lambda: REGEX[val][0], "d": lambda: dict_of(st, val)}[kind]()
    meth = {"p": "prefix", "r": "regex", "d": "dict"}[kind]
    if how == "from":
        return getattr(cls, f"from_{meth}")(v)
    return getattr(cls(), f"set_{meth}")(v)


def at(bundle, path):
    """The object behind a path such as 'sub.bl[3].x'."""
    o = bundle
    for part in re.findall(r"[^.\[\]]+|\[\d+\]", path):
        o = o[int(part[1:-1])] if part[0] == "[" else getattr(o, part)
    return o
