#!/usr/bin/env python3-vt
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vc import build, runner  # noqa: E402


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if a and a[0] == "baseline":
        import json
        t = build.Tree()
        lls = t.ll(build.ALL)
        t.close()
        json.dump(runner.make_baseline(lls), open(runner.BASE, "w"), indent=0, sort_keys=True)
        return 0
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    try:
        return runner.main(a[0], tier)
    except build.BuildError as e:
        print("BUILD-ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
