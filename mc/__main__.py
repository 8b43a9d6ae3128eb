import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")


def main():
    ap = argparse.ArgumentParser(prog="mc")
    ap.add_argument("property")
    ap.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    from . import core

    pid = a.property.upper()
    if a.replay:
        return core.main_replay(pid, a.replay)
    return core.main_run(pid, a.tier, a.workers)


if __name__ == "__main__":
    sys.exit(main())
