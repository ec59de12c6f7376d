#!/usr/bin/env python3
"""Entry point of every check: python3 checks/run.py --property ID [--tier quick|thorough]."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

TABLE = {
    "M01": ("comp_mux", "m01"), "M02": ("comp_mux", "m02"), "M03": ("comp_mux", "m03"), "M04": ("comp_mux", "m04"),
    "M05": ("comp_mux", "m05"), "M06": ("comp_meta", "m06"), "M07": ("comp_mux", "m07"), "M08": ("comp_mux", "m08"), "M09": ("comp_mux", "m09"),
    "M10": ("comp_mux", "m10"), "M11": ("comp_mux", "m11"),
    "T01": ("comp_pes", "t01"), "T02": ("comp_pes", "t02"), "T03": ("comp_pes", "t03"), "T04": ("comp_pes", "t04"), "T05": ("comp_pes", "t05"),
    "W01": ("comp_wp", "w01"),
    "W02": ("comp_wp", "w02"),
    "W03": ("comp_wp", "w03"),
    "W04": ("comp_wp", "w04"),
    "W05": ("comp_wp", "w05"),
    "W06": ("comp_wp", "w06"),
    "P01": ("comp_mkv", "p01"), "P02": ("comp_mkv", "p02"), "P03": ("comp_mkv", "p03"),
    "P04": ("comp_mkv", "p04"), "P05": ("comp_mkv", "p05"), "P06": ("comp_mkv", "p06"),
    "C01": ("comp_vp9", "c01"), "C02": ("comp_vp9", "c02"), "H01": ("comp_hdr", "h01"),
    "S01": ("comp_tools", "s01"), "S02": ("comp_tools", "s02"), "S03": ("comp_info", "s03"), "S04": ("comp_extract", "s04"),
    "E01": ("comp_coding", "e01"), "R01": ("comp_io", "r01"),
    "V01": ("comp_vtt", "v01"), "V02": ("comp_vtt", "v02"),
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for tool in ("java", "g++"):
            if not any(os.access(os.path.join(p, tool), os.X_OK) for p in os.environ["PATH"].split(":")):
                print("missing tool", tool)
                return 2
        print("setup ok")
        return 0
    mod, fn = TABLE[a.property]
    ck = vlib.Check(a.property, a.tier)
    try:
        getattr(importlib.import_module(mod), fn)(ck, a.tier)
    except vlib.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        if not ck.violations:
            return 3
    return ck.finish()


sys.exit(main())
