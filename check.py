#!/usr/bin/env python3-vt
"""check.py <property-id> [--tier quick|thorough]"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from props import REG
    from vf import runner
    mod, args = REG[pid]
    m = importlib.import_module("props." + mod)
    return runner.main(m.make(*args), pid, tier)


if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
