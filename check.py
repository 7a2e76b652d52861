#!/usr/bin/env python3
"""check.py <property id>: decides one property (see DESIGN.md)"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common

MODULES = ["p_x64", "p_asm", "p_obj", "p_rec", "p_misc", "p_cli", "p_machine", "p_build"]


def table():
    t = {}
    for m in MODULES:
        if os.path.exists(os.path.join(common.VERIF, "lib", m + ".py")):
            t.update(importlib.import_module(m).CHECKS)
    return t


if __name__ == "__main__":
    t = table()
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        common.build_harness()
        common.build_cli()
        sys.exit(0)
    if len(sys.argv) < 2 or sys.argv[1] not in t:
        print("usage: check.py <property>; known: " + " ".join(sorted(t)))
        sys.exit(2)
    sys.exit(common.main(sys.argv[1], t[sys.argv[1]]))
