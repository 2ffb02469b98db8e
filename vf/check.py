#!/usr/bin/env python3
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

import core


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from rules import REGISTRY
    modname, fn, rule = REGISTRY[prop]
    run = core.Run(prop, tier)
    try:
        mod = importlib.import_module("rules." + modname)
        run.guarded("the rule itself", getattr(mod, fn), (run,), {})
        run.settle()
        rc = core.finish(run, t0, rule)
    except core.AnalysisBroken as e:
        print("analysis error: property=%s %s" % (prop, e))
        rc = 2
    return rc


if __name__ == "__main__":
    res = []
    th = threading.Thread(target=lambda: res.append(main(sys.argv)))
    th.start()
    th.join()
    sys.exit(res[0] if res else 3)
