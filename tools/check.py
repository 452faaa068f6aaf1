#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property for /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER_USED"] = tier
    try:
        if prop in ("C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C24"):
            import image_checks as m
        elif prop in ("C01", "C02", "C03"):
            import pool_checks as m
        elif prop in ("C05", "C06"):
            import object_checks as m
        elif prop in ("C17", "C18"):
            import blob_checks as m
        elif prop == "C19":
            import edge_checks as m
        elif prop in ("C20", "C21"):
            import file_checks as m
        elif prop == "C27":
            import codec_checks as m
        elif prop == "C28":
            import device_checks as m
        elif prop in ("C22", "C23", "C25", "C26"):
            import math_checks as m
        elif prop == "C15":
            import dispatch_checks as m
        else:
            raise vlib.CheckError("no check for " + prop)
        return m.check(prop, tier, seed).finish()
    except vlib.CheckError as e:
        if vlib.Report.latest and vlib.Report.latest.violations:
            vlib.log("a part of the check gave no verdict: %s" % e)
            return vlib.Report.latest.finish()
        vlib.log("ERROR: the check gives no verdict: %s" % e)
        return 3


sys.exit(main())
