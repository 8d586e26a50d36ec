#!/usr/bin/env python3
"""check.py <property id>   decide one property on /repo's current tree (VERIF_TIER=quick|thorough)
check.py --setup           build what the checks build, so that they find it built"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
from checks import CHECKS, setup


def main():
    arg = sys.argv[1]
    lk = driver.lock()
    try:
        if arg == "--setup":
            return setup()
        fn, level = CHECKS[arg]
        rep = driver.Report(arg, level)
        fn(rep)
        return rep.finish()
    except driver.CheckError as e:
        print(f"ERROR: {e}")
        return 2


sys.exit(main())
