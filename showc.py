"""the first failing call of each clause (checks with calls)"""
import json, sys
seen = {}
for c in json.load(open(f"evidence/replay/{sys.argv[1]}.json")):
    if c["clause"] in ("hang", "crash", "exc") or "calls" not in c["raw"]:
        print(c["clause"], str(c)[:300]); continue
    for k, a in zip(c["raw"]["calls"], c["obs"]["answers"]):
        if a["err"] or k["end"]["k"] == c["clause"]:
            seen[c["clause"]] = seen.get(c["clause"], 0) + 1
            if seen[c["clause"]] <= 2:
                print(c["clause"], c["raw"]["store"], str(c["raw"].get("rows", c["raw"].get("many")))[:400], k, str(a)[:500], c["obs"].get("changed"))
