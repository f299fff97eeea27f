#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root /repo]   (or `all`)"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")

from sa.driver import PROPS, run  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ids = [p["id"] for p in PROPS] if a.property == "all" else [a.property]
    rc = 0
    for i in ids:
        rc = max(rc, run(i, a.tier, a.root, seed))
    return rc


if __name__ == "__main__":
    sys.exit(main())
