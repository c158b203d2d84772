#!/usr/bin/env python3
"""check.py <property>: runs the check of one property.  See ../DESIGN.md."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
import hv  # noqa: E402

MODULES = ["c_core", "c_front", "c_shell"]


def registry():
    reg = {}
    for m in MODULES:
        reg.update(importlib.import_module(m).CHECKS)
    return reg


if __name__ == "__main__":
    reg = registry()
    if len(sys.argv) != 2 or sys.argv[1] not in reg:
        sys.exit("usage: check.py <%s>" % "|".join(sorted(reg)))
    hv.main(reg[sys.argv[1]], sys.argv[1], "model_checking")
