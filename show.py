#!/usr/bin/env python3
"""show.py <property> [n] [width]: the violations of the last run, in short"""
import json
import sys

n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
w = int(sys.argv[3]) if len(sys.argv) > 3 else 700
for c in json.load(open(f"evidence/replay/{sys.argv[1]}.json"))[:n]:
    print("==", c["clause"], c["st"], (c.get("err") or "")[-w:])
    print("  RAW", json.dumps(c["raw"])[:w])
    print("  SCN", json.dumps(c["scn"])[:w])
    print("  OBS", json.dumps(c["obs"])[:w])
