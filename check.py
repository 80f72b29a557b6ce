#!/usr/bin/env python3
"""check.py <property>: runs the monitors of one property against /repo's working tree."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build, checks, runner

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER", "quick") == "thorough" or "--thorough" in sys.argv
    t0 = time.time()
    c = checks.CHECKS[prop]
    try:
        res = runner.Result()
        res.known = {k for k, _ in runner.load_known(prop)}
        if c.get("jobs"):
            runner.run_jobs(c["jobs"], seed, thorough, res)
        if c.get("py"):
            c["py"](res, seed, thorough)
    except build.BuildError as e:
        print("build failed:\n" + str(e)[:3000]); return 2
    return runner.report(prop, c.get("level", "exploration"), res, c["rule"], c.get("assumptions", []), t0, seed, thorough, c.get("min", ()))

if __name__ == "__main__":
    sys.exit(main())
