#!/usr/bin/env python3
"""check.py <property id> quick|thorough [--replay FILE] [--seconds N] [--workers N] [--seed N]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
import importlib

from vf import pbt

MODULES = ["props_sql", "props_dml", "props_run", "props_into", "props_names", "props_schema", "props_flow", "props_api", "props_stdin", "props_util", "props_fault", "props_layout", "props_group", "props_text", "props_spell"]


def registry():
    out = {}
    for m in MODULES:
        for c in importlib.import_module("vf." + m).PROPS:
            out[c.id] = c
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", choices=["quick", "thorough"], nargs="?", default="quick")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    reg = registry()
    if a.prop == "list":
        for k, v in sorted(reg.items()):
            print(k, v.__name__)
        return 0
    return pbt.main(reg[a.prop](), a.tier, a.replay, a.seconds, a.workers, a.seed)


if __name__ == "__main__":
    sys.exit(main())
