#!/usr/bin/env python3
"""Runs the check of one property: run.py C01 [quick|thorough] (or VERIF_TIER=..., VERIF_SEED=n)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]

if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]

import common  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        rc = importlib.import_module(prop.lower()).main()
    except common.Inconclusive as e:
        common.log("%s: INCONCLUSIVE: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        common.log("%s: INCONCLUSIVE: the check itself failed" % prop)
        rc = 2
    if rc == 2 and common.current is not None and common.current.viol:
        rc = common.current.finish()  # what the monitors saw before that still counts
    return rc


if __name__ == "__main__":
    sys.exit(main())
