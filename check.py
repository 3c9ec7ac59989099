#!/usr/bin/env python3
"""
check.py <property id> [--replay FILE]

Decide one property: exit 0 (held on everything explored), 1 (VIOLATION line printed),
2 (the check couldn't do its work).
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + prop.lower())
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        if "--replay" in sys.argv:
            for case in json.load(open(sys.argv[sys.argv.index("--replay") + 1])):
                cases = ctx.drive(case["driver"], [case["raw"]])
                ctx.judge(case["judge"], cases)
                print(json.dumps({"was": case["clause"], "now": [r[1] for r in ctx.rejects[-1:]], "case": cases[0]}, indent=1, default=str))
        else:
            mod.run(ctx)
        return ctx.finish()
    except vlib.MachineryError as e:
        print(f"CHECK-ERROR property={prop}: {e}", flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
