#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property (see DESIGN.md)"""
import os, sys, traceback
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import mpmath  # noqa
except ImportError:
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
import importlib

TABLE = {"M01": ("laws", "m01"), "M02": ("laws", "m02"), "M03": ("laws", "m03"), "M17": ("laws", "m17"), "M18": ("laws", "m18"), "M04": ("iid", "m04"),
         "M05": ("dens", "m05"), "M06": ("dens", "m06"), "M07": ("tree", "m07"), "M08": ("small", "m08"), "M20": ("small", "m20"),
         "M09": ("expr", "m09"), "M10": ("expr", "m10"), "M15": ("expr", "m15"), "M19": ("expr", "m19"), "M11": ("cache", "m11"), "M12": ("jit", "m12"), "M13": ("expr", "m13"), "M14": ("tagless", "m14"), "M16": ("bayes", "m16"), "M21": ("ad", "m21")}


def main():
    pid = sys.argv[1]
    if pid == "build":
        core.build()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = core.Check(pid, tier)
    try:
        core.build()
        mod, fn = TABLE[pid]
        m = importlib.import_module("vlib." + mod)
        getattr(m, fn)(ck)
        return ck.finish(assumptions=getattr(m, "ASSUMPTIONS", []))
    except Exception as e:
        # a driver that cannot digest what the code did: what it did is the verdict, if anything was wrong with it
        if not isinstance(e, core.ToolError):
            traceback.print_exc(file=sys.stdout)
            for what, case in ck.panics:
                ck.fail(f"the code panics: {what}", case)
        if ck.nviol:
            return ck.finish()
        print("TOOL-ERROR:", e)
        return 2


sys.exit(main())
