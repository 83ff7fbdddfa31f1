#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- exit 0 held, 1 violation, 2 error"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common

MODULES = {
    "P01": "c_toss", "P02": "c_toss", "P03": "c_toss", "P04": "c_toss", "P05": "c_dupe",
    "P06": "c_mail", "P07": "c_mail", "P08": "c_mail",
    "P10": "c_sched", "P11": "c_sched", "P12": "c_sched",
    "P09": "c_out", "P24": "c_hist", "P13": "c_area", "P14": "c_area", "P15": "c_area", "P16": "c_area", "P17": "c_tick", "P18": "c_tick", "P22": "c_addr", "P23": "c_addr", "P19": "c_gate", "P20": "c_gate", "P21": "c_post",
}


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    try:
        m = importlib.import_module(MODULES[prop])
        ctx = common.Ctx(prop, tier)
        getattr(m, prop)(ctx)
        rc = ctx.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(rc)


main()
