#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current working tree.

1. every obligation of the property's contracts, lemmas and specs is generated from /repo's current source and given to the solvers;
2. the same contracts are executed on the real functions (labelled bounded), plus the property's bounded end-to-end cases;
3. evidence/<id>.json is rewritten; exit 0, or exit 1 with VIOLATION lines."""
import os, sys, time
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":     # same term order, same solver behaviour, on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import logging
logging.disable(logging.CRITICAL)
from pyvc import runner

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(runner.main(pid, tier, seed, HERE))
