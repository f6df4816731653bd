#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: exit 0 holds, 1 violated (with VIOLATION lines), 2 tool error."""
import os, sys, traceback, fcntl
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09"):
        import server as m
    elif prop in ("W01", "W02", "W03", "W04"):
        import client as m
    elif prop in ("S01", "S02", "S03", "S04", "S05"):
        import schema as m
    elif prop in ("R10", "W05", "G01", "G02", "G03"):
        import api as m
    else:
        sys.exit("unknown property " + prop)
    try:
        return m.check(prop, tier)
    except vlib.ToolError as e:
        vlib.log("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
