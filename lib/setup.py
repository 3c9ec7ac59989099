#!/usr/bin/env python3
"""checks that what the checks need is there; nothing has to be built"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vlib  # noqa: E402

os.makedirs(vlib.EVIDENCE, exist_ok=True)
bad = 0
for jar in vlib.JARS.split(":"):
    if not os.path.exists(jar):
        print("missing", jar)
        bad = 1
if not os.path.exists(vlib.PYTHON):
    print("missing", vlib.PYTHON)
    bad = 1
bad |= subprocess.call(["java", "-version"], stderr=subprocess.DEVNULL)
sys.exit(bad)
