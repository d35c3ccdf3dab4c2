#!/usr/bin/env python3
"""python3 run.py <property> | --setup | --all    (VERIF_TIER, VERIF_SEED from the environment)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from checks import REG, T


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = REG[pid]
    try:
        jobs = c["fn"](T(tier, seed))
        return vlib.run_check(pid, c["level"], c["rule"], jobs, tier, seed, c["assumptions"],
                              c["min_distinct"], c["min_counts"])
    except vlib.HarnessError as e:
        print("HARNESS-ERROR", e)
        return 2


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        for fl in ("asan", "tsan"):
            vlib.build_lib(fl)
        print("setup done")
        return 0
    if a == ["--all"]:
        bad = 0
        for pid in sorted(REG):
            rc = run(pid)
            sys.stdout.flush()
            bad |= rc
        return bad
    if len(a) == 1 and a[0] in REG:
        return run(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
