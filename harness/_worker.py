"""
Runs scenarios through a driver module: _worker.py <driver> <in.json> <out.jsonl>

The driver has run(scenario) -> observation; it may also return a tuple (scenario,
observation) to replace the scenario the judge sees (e.g. with values encoded for TLC).
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    driver, inp, out = sys.argv[1:4]
    jobs = json.load(open(inp))
    f = open(out, "a")

    def emit(rec):
        f.write(json.dumps(rec) + "\n")
        f.flush()

    pid = os.getpid()
    try:
        import common  # noqa: F401  (patches and quiet logging, before mabel is imported)

        mod = importlib.import_module(driver)
    except BaseException:
        traceback.print_exc()
        print("DRIVER-IMPORT-FAILED", flush=True)
        sys.stdout.flush()
        os._exit(3)
    for i, scn in jobs:
        emit({"start": i})
        try:
            obs = mod.run(scn)
            rec = {"i": i, "st": "ok"}
            if isinstance(obs, tuple):
                rec["scn"], rec["obs"] = obs
            else:
                rec["obs"] = obs
        except BaseException:
            if os.getpid() != pid:
                os._exit(9)
            rec = {"i": i, "st": "exc", "err": traceback.format_exc()[-3000:]}
        emit(rec)
    if hasattr(mod, "finish"):
        mod.finish()
    emit({"done": True})
    f.close()
    os._exit(0)


main()
