#!/usr/bin/env python3
"""Re-run exactly the tasks in which a recorded violation was found: python3 mc/replay.py replays/<file>.json"""
import json
import os
import subprocess
import sys

rec = json.load(open(sys.argv[1]))
here = os.path.dirname(os.path.abspath(__file__))
bad = 0
for label in rec["tasks"]:
    env = dict(os.environ, VERIF_SEED=str(rec["seed"]))
    env.pop("MC_CHILD", None)
    bad |= subprocess.call([sys.executable, os.path.join(here, "run.py"), rec["property"], "--tier", rec["tier"],
                            "--task", label, "-v"], env=env)
sys.exit(bad)
