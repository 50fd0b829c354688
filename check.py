#!/usr/bin/env python3
"""check.py <property id>: decides one property on the current sources under /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

# property -> module, function (called with the program, the report and the tier)
TABLE = {
    "C01": ("c01", "run_count"),
    "C02": ("c02", "run_c02"),
    "C03": ("actions", "run_c03"),
    "C05": ("parsing", "run_c05"),
    "C06": ("actions", "run_c06"),
    "C07": ("clocks", "run_c07"),
    "C08": ("clocks", "run_c08"),
    "C09": ("clocks", "run_c09"),
    "C10": ("clocks", "run_deadlock"),
    "C15": ("evals", "run_c15"),
    "C16": ("fresh", "run_c16"),
    "C20": ("watch", "run_c20"),
    "C17": ("sched", "run_c17"),
    "C26": ("rtlvals", "run_c26"),
    "C13": ("exprs", "run_c13"),
    "C11": ("pausing", "run_c11"),
    "C12": ("pausing", "run_c12"),
}

if __name__ == "__main__":
    import report
    prop = sys.argv[1]
    mod, fn = TABLE[prop]
    sys.exit(report.main(prop, getattr(importlib.import_module(mod), fn)))
