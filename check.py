#!/usr/bin/env python3-vt
"""check.py P01 [--tier quick|thorough]    decide one property on the current tree
check.py --replay FILE                    run the real code on a recorded failing input"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        from vx import props
        return props.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vx import props
    return props.run(a[0], tier, seed)


sys.exit(main())
