"""C18: log statistics and output match the records that were issued."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import toffee
from toffee import logger as tlog

from ..core import Violation, expect

ID = "C18"
BOUNDS = {
    "quick": "all sequences of 2 configurations (8 levels x console on/off x no file or one of 2 files x 3 formats = 144) each followed by a batch of 24 records (8 logging functions, 7 severities, 10 ids, 8 payloads); all sequences of 3 of 18 configurations; "
    "all words of <=3 records over 20 variants x 4 configurations; configurations that leave out what has a default; processes that log before the first configuration; up to 2200 records; reconfiguration after every prefix of a batch; summaries",
    "thorough": "all sequences of 3 of 48 configurations, 4 of 8",
}
ASSUMPTIONS = ["the console is the process's standard error stream (captured on file descriptor 2)"]
LEVELS = (0, 10, 20, 25, 30, 40, 50, 60)
FORMATS = (None, "[%(levelname)s]%(log_id)s %(message)s", "%(message)s%(log_id)s - %(levelname)s")
NOID = "no id"
RECS = [
    ["debug", 10, NOID, "p"],
    ["info", 20, NOID, "p"],
    ["warning", 30, NOID, "p"],
    ["error", 40, NOID, "p"],
    ["critical", 50, NOID, "p"],
    ["log", 25, NOID, "p"],
    ["log", 5, "ID-a", "p"],
    ["debug", 10, "ID-a", "p"],
    ["info", 20, "ID-a", "p"],
    ["info", 20, "ID-b", "nl"],
    ["warning", 30, "ID-b", "args"],
    ["warning", 30, "", "p"],
    ["error", 40, 7001, "uni"],
    ["error", 40, "ID-a", "p"],
    ["critical", 50, "ID-b", "pct"],
    ["get_warning", 30, "ID-c d", "p"],
    ["get_error", 40, NOID, "esc"],
    ["log", 45, "ID-%s", "p"],
    ["exception", 40, "ID-a", "p"],
    ["exception", 40, NOID, "empty"],
    ["log", 99, NOID, "dict"],
    ["get_log", 30, "ID-(id: x)", "p"],
    ["error", 40, 0, "p"],
    ["info", 20, 0, "args"],
]
NAMES = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}


def confs():
    return [[lv, con, f, fmt] for lv in LEVELS for con in (1, 0) for f in (None, 0, 1) for fmt in range(3)]


def cases(tier):
    th = tier == "thorough"
    allc = confs()
    batch = list(range(len(RECS)))
    for c in allc:
        yield {"ops": [["conf", c], ["recs", batch], ["summary"]]}
    for n in (1, 2, 3):
        for w in itertools.product(range(20), repeat=n):
            for c in ([20, 1, 0, 0], [0, 1, None, 0], [30, 0, 1, 1], [40, 1, 1, 2])[: 4 if n < 3 else 1]:
                yield {"ops": [["conf", c], ["recs", list(w)]]}
    for c1, c2 in itertools.product(allc, repeat=2):
        if not th and (c1[3] + c2[3]) % 3 == 2:
            continue
        yield {"ops": [["conf", c1], ["recs", batch], ["conf", c2], ["recs", batch]]}
    few = [[lv, con, f, (lv // 10 + con) % 3] for lv in ((20, 40, 30, 10) if th else (20, 40)) for con in (1, 0) for f in (None, 0, 1) for _ in range(2 if th else 1)]
    few += [[25, 1, 0, 1], [60, 1, 1, 0], [0, 1, 0, 0], [0, 0, 1, 2], [30, 1, None, 0], [50, 1, 0, 2]]
    for w in itertools.product(few, repeat=3):
        yield {"ops": [x for c in w for x in (["conf", c], ["recs", batch[:16:3]])]}
    for w in itertools.product(few[:: len(few) // 8 + 1] if not th else few[::6], repeat=4):
        yield {"ops": [x for c in w for x in (["conf", c], ["recs", batch[::4]])] + [["summary"]]}
    for k in range(len(RECS)):
        for c in ([10, 1, 0, 0], [30, 1, 0, 0], [30, 0, 0, 1]):
            yield {"ops": [["conf", [20, 1, 0, 0]], ["recs", batch[:k]], ["conf", c], ["recs", batch[k:]], ["summary"], ["conf", [20, 1, 1, 0]], ["summary"], ["recs", batch]]}
    # what a configuration does not say: the level is WARNING, the console is on, there is no file
    for miss in (("level",), ("level", "con"), ("con",)):
        for c in ([20, 1, None, 0], [30, 0, 0, 0], [40, 1, 1, 1]):
            d = [30 if "level" in miss else c[0], 1 if "con" in miss else c[1], c[2], c[3], list(miss)]
            for c1 in ([0, 1, 0, 1], [40, 0, 1, 0]):
                yield {"ops": [["conf", c1], ["recs", batch], ["conf", d], ["recs", batch], ["summary"]]}
    # many records
    for k in range(0, len(RECS), 3):
        for n in (130, 300, 1100):
            yield {"ops": [["conf", [0, 1, 0, k % 3]], ["recs", [k] * n], ["summary"], ["conf", [20, 1, 1, 1]], ["recs", (batch * n)[:n]], ["summary"]]}
    # a process of its own: records before the first configuration
    for k in (0, 2, 5, len(RECS)) if not th else range(0, len(RECS) + 1, 2):
        for c in ([20, 1, 0, 0], [40, 0, 1, 1], [10, 1, None, 2]):
            yield {"fresh": 1, "ops": [["recs", batch[:k]], ["conf", c], ["recs", batch], ["summary"]]}


def payload(kind, n):
    b, e = f"<{n}:", f":{n}>"
    if kind == "p":
        return b + "plain" + e, (), b + "plain" + e
    if kind == "nl":
        return b + "two\nlines\n" + e, (), b + "two\nlines\n" + e
    if kind == "args":
        return b + "%d and %s" + e, (42, "x"), b + "42 and x" + e
    if kind == "uni":
        return b + "信号\u20ac" + e, (), b + "信号\u20ac" + e
    if kind == "pct":
        return b + "100% %s %d" + e, (), b + "100% %s %d" + e
    if kind == "esc":
        return b + "\x1b[0m color \t" + e, (), b + "\x1b[0m color \t" + e
    if kind == "dict":
        return b + "%(k)s" + e, ({"k": "v"},), b + "v" + e
    return b + e, (), b + e


def emit(rec, n):
    fn, lv, lid, kind = rec
    msg, args, text = payload(kind, n)
    kw = {} if lid == NOID else {"extra": {"log_id": lid}}
    if fn.startswith("get_"):
        f = getattr(toffee.get_logger(), fn[4:])
    else:
        f = getattr(toffee, fn, None) or getattr(tlog, fn)
    if fn == "exception":
        try:
            raise KeyError(f"boom{n}")
        except KeyError:
            f(msg, *args, **kw)
    elif fn.endswith("log"):
        f(lv, msg, *args, **kw)
    else:
        f(msg, *args, **kw)
    return text


def sev(lv):
    return NAMES.get(lv, f"Level {lv}")


def show(name, i):
    return "stats" if i is None else name


def run_case(case, rec):
    td = tempfile.mkdtemp(prefix="c18-")
    if case.get("fresh"):
        try:
            with open(os.path.join(td, "console"), "w") as con:
                env = {**os.environ, "PYTHONPATH": os.pathsep.join(p for p in sys.path if p), "PYTHONWARNINGS": "ignore"}
                r = subprocess.run([sys.executable, "-c", "from mc.checks import c18; c18.child()", json.dumps(case), td], stdout=subprocess.PIPE, stderr=con, text=True, env=env, cwd=td, timeout=300)
            if r.returncode or not r.stdout:
                raise RuntimeError(f"the process of its own failed ({r.returncode}): " + open(os.path.join(td, "console")).read()[-1500:])
            out = json.loads(r.stdout.splitlines()[-1])
        finally:
            shutil.rmtree(td)
        if "violation" in out:
            raise Violation(*out["violation"][:1], **out["violation"][1])
        rec.execution(*out["execution"])
        return
    saved = os.dup(2)
    con = os.open(os.path.join(td, "console"), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    try:
        os.dup2(con, 2)
        toffee.setup_logging(toffee.WARNING, console_display=False)
        toffee.get_logger().propagate = False
        _run(case, rec, td)
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(con)
        toffee.setup_logging(toffee.WARNING, console_display=False)
        shutil.rmtree(td)


def child():
    """Runs a case in this process, in which nothing was configured or logged before."""

    class Rec:
        def execution(self, *a):
            print(json.dumps({"execution": a}))

    try:
        _run(json.loads(sys.argv[1]), Rec(), sys.argv[2], c_on=1)
    except Violation as e:
        print(json.dumps({"violation": [str(e), getattr(e, "detail", {})]}, default=str))


def _run(case, rec, td, c_on=0):
    st = tlog.stats_handler
    sev0, id0 = dict(st.serverity_stats), dict(st.id_stats)
    want_sev, want_id = {}, {}
    console, files = [], {0: [], 1: []}
    level, f_on, fmt = 30, None, 0
    n = 0
    summaries = []
    for op in case["ops"]:
        if op[0] == "conf":
            level, c_on, f_on, fmt, *miss = op[1]
            miss = miss[0] if miss else ()
            kw = {} if fmt == 0 else {"format": FORMATS[fmt]}
            if "level" not in miss:
                kw["log_level"] = level
            if "con" not in miss:
                kw["console_display"] = bool(c_on)
            if f_on is not None or not miss:
                kw["log_file"] = None if f_on is None else os.path.join(td, f"f{f_on}")
            toffee.setup_logging(**kw)
            if f_on is not None:
                files[f_on] = []
        elif op[0] == "recs":
            for i in op[1]:
                n += 1
                text = emit(RECS[i], n)
                _, lv, lid, _ = RECS[i]
                # a logger without a level of its own (0) uses its parent's
                if lv < (level or toffee.get_logger().getEffectiveLevel()):
                    continue
                want_sev[sev(lv)] = want_sev.get(sev(lv), 0) + 1
                k = "" if lid in (NOID, "") else lid
                want_id[k] = want_id.get(k, 0) + 1
                item = (n, text, sev(lv), None if lid in (NOID, "") else str(lid), fmt, RECS[i][0] == "exception")
                if c_on:
                    console.append(item)
                if f_on is not None:
                    files[f_on].append(item)
        else:
            tlog.summary()
            counted = 20 >= (level or toffee.get_logger().getEffectiveLevel())
            if counted:
                item = (None, {k: v + sev0.get(k, 0) for k, v in want_sev.items()}, "INFO", None, fmt, False)
                want_sev["INFO"] = want_sev.get("INFO", 0) + 1
                want_id[""] = want_id.get("", 0) + 1
                if c_on:
                    console.append(item)
                if f_on is not None:
                    files[f_on].append(item)
    got_sev = {k: v - sev0.get(k, 0) for k, v in st.serverity_stats.items() if v != sev0.get(k, 0)}
    expect(got_sev, want_sev, "counts per severity")
    got_id = {}
    for k, v in st.id_stats.items():
        v -= id0.get(k, 0)
        if v:
            k = "" if k in ("default", "default_id") else k
            got_id[k] = got_id.get(k, 0) + v
    expect(got_id, want_id, "counts per id")
    outs = {"console": open(os.path.join(td, "console"), encoding="utf-8").read()}
    for f in files:
        p = os.path.join(td, f"f{f}")
        outs[f"file {f}"] = open(p, encoding="utf-8").read() if os.path.exists(p) else ""
    shown = {}
    for name, items in (("console", console), ("file 0", files[0]), ("file 1", files[1])):
        text = outs[name]
        pos = 0
        for num, body, severity, lid, fm, exc in items:
            if num is None:
                j = text.find("Log Summary", pos)
                if j < 0:
                    raise Violation("a summary is missing in an output", output=name)
                pos = j + 5
                for k, v in body.items():
                    if not re.search(rf"^{re.escape(k)}\W+{v}$", text[j:].split("Log Summary")[1] if j >= 0 else "", re.M):
                        raise Violation("a summary does not show the count of a severity", output=name, severity=k, count=v, text=text[j:])
                continue
            j = text.find(body, pos)
            if j < 0 or text.count(f"<{num}:") != 1:
                raise Violation(f"an output shows record {num} {text.count(f'<{num}:')} times, or not in order, or with another message", output=name, message=body, text=text)
            end = j + len(body)
            start = max(text.rfind("\n", 0, j), -1) + 1
            stop = text.find("\n", end)
            stop = len(text) if stop < 0 else stop
            line = text[start:j] + " " + text[end:stop]
            if severity not in line:
                raise Violation("the severity of a record is not shown", output=name, line=text[start:stop])
            if lid is None:
                if re.search(r"id: |ID-", line):
                    raise Violation("an id is shown for a record without one", output=name, line=text[start:stop])
            elif f"(id: {lid})" not in line:
                raise Violation("the id of a record is not shown, or not unchanged", output=name, line=text[start:stop], id=lid)
            if fm == 1 and not text[start:j].endswith(f"[{severity}]{'' if lid is None else f'(id: {lid})'} "):
                raise Violation("the configured format is not used", output=name, line=text[start:stop])
            if fm == 2 and not text[end:stop].startswith(f"{'' if lid is None else f'(id: {lid})'} - {severity}"):
                raise Violation("the configured format is not used", output=name, line=text[start:stop])
            if exc and not re.search(rf"KeyError: 'boom{num}'", text[end:]):
                raise Violation("the exception of a record is not shown", output=name)
            whole = text[start:stop]
            if shown.setdefault(num, whole) != whole:
                raise Violation("two outputs show a record differently", a=shown[num], b=whole)
            pos = end
        nums = [x for x in re.findall(r"<(\d+):", text)]
        expect(nums, [str(x[0]) for x in items if x[0] is not None], "records shown by an output", output=name)
    rec.execution(n, [repr((sorted(want_sev.items()), sorted(map(repr, want_id.items()))))], f"{len(console)},{len(files[0])},{len(files[1])}")
