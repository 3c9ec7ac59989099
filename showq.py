"""the first failing statement of each kind (C21)"""
import json, sys
n = int(sys.argv[1]) if len(sys.argv) > 1 else 8
seen = {}
for c in json.load(open("evidence/replay/C21.json")):
    if not c["clause"].startswith("statement"):
        if seen.setdefault(c["clause"], 0) < 2:
            print(c["clause"], (c.get("err") or str(c))[-600:])
        seen[c["clause"]] += 1
        continue
    k = int(c["clause"].split()[1]) - 1
    q, a = c["raw"]["queries"][k], c["obs"]["answers"][k]
    seen["n"] = seen.get("n", 0) + 1
    if seen["n"] <= n:
        print("==", repr(q["text"]), json.dumps(q["judge"])[:300])
        print("   ROWS", c["raw"]["rows"][:6])
        print("   GOT", a["err"], str(a["rows"])[:300])
