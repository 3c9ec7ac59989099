#!/usr/bin/env python3
"""showt.py <property> [n] [clause]: violations, with sequences of code points as text"""
import json
import sys


def t(v):
    if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
        if v[0] in (3, 9) and len(v) > 1 and max(v) > 31:
            return "T:" + "".join(map(chr, v[1:]))
        if min(v) >= 9 and max(v) > 31:
            return "".join(map(chr, v))
        return str(v)
    if isinstance(v, list):
        return [t(x) for x in v]
    if isinstance(v, dict):
        return {k: t(x) for k, x in v.items()}
    return v


n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
cs = [c for c in json.load(open(f"evidence/replay/{sys.argv[1]}.json")) if len(sys.argv) < 4 or c["clause"] == sys.argv[3]]
cs.sort(key=lambda c: len(json.dumps(c["raw"])))
for c in cs[:n]:
    print("==", c["clause"], c["st"], (c.get("err") or "")[-900:])
    print("  SCN", {k: t(v) for k, v in (c["scn"] or {}).items() if k != "hs"})
    print("  OBS", t(c["obs"]))
