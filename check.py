#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: holds on everything analysed; exit 1: VIOLATION line printed; exit 3: the analysis could not give an answer."""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from knpa import lib  # noqa: E402
from knpa.facts import AnalysisBroken  # noqa: E402
import knpa.rules  # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="+")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    ids = sorted(lib.REGISTRY) if a.id == ["all"] else a.id
    rc = 0
    for pid in ids:
        try:
            r = lib.run_property(pid, a.tier, int(os.environ.get("VERIF_SEED", "1")))
        except AnalysisBroken as ex:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, ex))
            r = 3
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
