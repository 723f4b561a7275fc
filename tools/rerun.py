#!/usr/bin/env python3
"""rerun.py REPLAY.json: runs the recorded failing input against the real code; exit 1 when it still fails."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from check import build_replay  # noqa: E402

exe, dropped, log = build_replay()
if exe is None:
    print(log[-3000:])
    sys.exit(2)
sys.exit(subprocess.run([exe, "--file", os.path.abspath(sys.argv[1])]).returncode)
