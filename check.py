#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property; see DESIGN.md."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import driver
import jobs


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i : i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--setup":
        driver.build_engine()
        for c in jobs.CRATES:
            try:
                driver.build_crate(c, jobs.PRE.get(c))
            except driver.BuildFailed as x:
                print(str(x)[-1500:])
        return 0
    rc = 0
    for p in a or sorted(jobs.PROPS):
        try:
            r = driver.check(p, jobs.PROPS[p], tier, seed)
        except driver.CheckError as x:
            print("ERROR: " + str(x))
            r = 2
        rc = rc if rc == 1 else max(rc, r) if r != 1 else 1
    return rc


sys.exit(main())
