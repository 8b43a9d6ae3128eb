"""Copies the bounds that the checks state (BOUNDS in mc/checks) into DESIGN.md."""
import importlib
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), ROOT]
sys.dont_write_bytecode = True
text = open(ROOT + "/DESIGN.md").read()
for i in range(1, 25):
    c = f"C{i:02d}"
    b = importlib.import_module(f"mc.checks.{c.lower()}").BOUNDS
    k = re.search(rf"(### {c} .*?\n\* Bounds \(quick\): )([^\n]*)(\n\* Thorough: )([^\n]*)", text, re.S)
    q, t = (b[x].strip().rstrip(".") + "." for x in ("quick", "thorough"))
    text = text[: k.start()] + k.group(1) + q + k.group(3) + t + text[k.end() :]
open(ROOT + "/DESIGN.md", "w").write(text)
