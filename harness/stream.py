"""
Sessions of StreamWriters under the deterministic scheduler.

scenario: seed, policy (random | pct | coarse), switch
          writers [{dataset, fmt, blob_size, idle, cap}]
          threads [[{op: app, w, r (record fields) } | {op: sleep, s} | {op: fin, w}]]
          early: finalize is called without waiting for the appending threads
          fails: fail the n-th store operations (1..), in the order they happen
"""
import gc
import os

import sched
import common
from common import Mem, StoreFailure, decode, mem_writer

from mabel.data import StreamWriter

SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "k", "type": "VARCHAR"}, {"name": "p", "type": "VARCHAR"}]


def run(scn):
    store = Mem()
    ev = []
    state = {"puts": 0, "over": False}
    fails = set(scn.get("fails", []))
    coarse = scn["policy"] == "coarse"
    gc.disable()

    def on_sleep(t, seconds):
        if t.name not in names and not state["over"]:
            ev.append({"e": "pass", "at": at()})

    s = sched.Sched(scn["seed"], scn["policy"], scn.get("switch", 0.2), trace=not coarse, on_sleep=on_sleep)
    base = s.us
    names = {}

    def at():
        return (s.us - base) // 1000

    def who():
        me = s.me()
        return names.get(me.name, 0) if me else -1

    def before(name, data, named):
        if state["over"]:
            raise StoreFailure("over")
        state["puts"] += 1
        n = state["puts"]
        s.point()
        if n in fails:
            ev.append({"e": "fail", "t": who(), "at": at()})
            raise StoreFailure("down")

    fmts = {}

    def after(name, data, named):
        folder = os.path.dirname(name)
        fmt = "parquet" if name.endswith(".parquet") else "zstd" if name.endswith(".zstd") else "jsonl"
        ev.append({"e": "put", "t": who(), "at": at(), "p": folder, "recs": [r.get("i", -1) for r in decode(fmt, data)[0]]})
        s.point()

    inner = mem_writer(store, before, after)
    made = []

    def appender(n, ops):
        def body():
            for op in ops:
                if op["op"] == "sleep":
                    s.sleep(op["s"])
                elif op["op"] == "fin":
                    finalize(op["w"])
                else:
                    w = scn["writers"][op["w"]]
                    path = w["dataset"].replace("{k}", str(op["r"]["k"]))
                    ev.append({"e": "app", "t": who(), "at": at(), "i": op["r"]["i"], "p": path, "w": op["w"]})
                    try:
                        made[op["w"]].append(dict(op["r"]))
                        ok = True
                    except Exception as e:
                        ok = False
                        if not isinstance(e, StoreFailure):
                            ev.append({"e": "odd", "what": type(e).__name__})
                    ev.append({"e": "ret", "t": who(), "at": at(), "i": op["r"]["i"], "p": path, "ok": ok, "w": op["w"]})

        return body

    def finalize(w):
        ev.append({"e": "fin", "t": who(), "at": at(), "w": w})
        try:
            made[w].finalize()
            ok = True
        except Exception as e:
            ok = False
            if not isinstance(e, StoreFailure):
                ev.append({"e": "odd", "what": type(e).__name__})
        ev.append({"e": "fret", "t": who(), "at": at(), "w": w, "ok": ok})

    def main():
        for w in scn["writers"]:
            kw = dict(inner_writer=inner, dataset=w["dataset"], format=w["fmt"], schema=SCHEMA if w["fmt"] == "parquet" or w.get("schema") else False,
                      partitions=None, date="2024-02-29", idle_timeout_seconds=w["idle"], writer_pool_capacity=w["cap"])
            if w.get("blob_size"):
                kw["blob_size"] = w["blob_size"]
            made.append(StreamWriter(**kw))
        names["main"] = 1
        ts = []
        for n, ops in enumerate(scn["threads"]):
            name = f"appender{n}"
            names[name] = n + 2
            ts.append(s.spawn(appender(n, ops), name))
        s.point()
        if scn.get("early"):
            for w in range(len(made)):
                finalize(w)
        for t in ts:
            s.join(t)
        for _ in range(scn.get("finals", 1)):
            for w in range(len(made)):
                finalize(w)
        state["over"] = True
        for w in made:
            w.run_pool_attendant = False

    try:
        why = s.run(main)
    finally:
        state["over"] = True
        made.clear()
        gc.enable()
    if why != "finished":
        ev.append({"e": "odd", "what": why})
    gc.collect()
    writers = [dict(idle=int(w["idle"] * 1000), cap=w["cap"]) for w in scn["writers"]]
    return {"writers": writers, "calm": scn.get("calm", 1)}, {"ev": ev, "steps": s.steps}
