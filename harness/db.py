"""
A DatabaseWriter over an inner writer which records what it is passed.

scenario: ops [{op: app, n} | {op: bad} | {op: fin} | {op: del}], fails: which inner commits fail (1..),
ffails: which runs of the finalizer fail, own: the inner writer overrides finalize
"""
import gc

import common  # noqa: F401
from common import StoreFailure

from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data import DatabaseWriter

SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "t", "type": "VARCHAR", "nullable": True}, {"name": "f", "type": "DOUBLE", "nullable": True}]


def record(i):
    return {"i": i, "t": None if i % 7 == 3 else f"text {i}", "f": None if i % 5 == 2 else i / 4}


def records(dataframe):
    rows = [r.as_dict for r in dataframe]
    return [r() if callable(r) else r for r in rows]


def run(scn):
    ev, kept = [], []
    st = {"c": 0, "f": 0}

    def finalizer(w):
        st["f"] += 1
        if st["f"] in scn["ffails"]:
            ev.append({"e": "ffail"})
            raise StoreFailure("finalizer")
        ev.append({"e": "final"})

    class Inner(BaseDatabaseWriter):
        def commit(self, dataframe):
            st["c"] += 1
            if st["c"] in scn["fails"]:
                ev.append({"e": "fail"})
                raise StoreFailure("down")
            rows = records(dataframe)
            kept.append((dataframe, rows))
            a, b = (rows[0]["i"], rows[-1]["i"]) if rows else (0, 0)
            ev.append({"e": "pass", "a": a, "b": b, "same": rows == [record(i) for i in range(a, b + 1)]})

    w = DatabaseWriter(dataset="d", schema=SCHEMA, inner_writer=Inner, engine={}, finalizer=finalizer)
    n = 0
    for op in scn["ops"]:
        if op["op"] == "app":
            for _ in range(op["n"]):
                n += 1
                at = len(ev)
                ok = True
                ev.append({"e": "app", "i": n})
                try:
                    w.append(common.as_model(record(n)) if n % 3 == 0 else record(n))
                except StoreFailure:
                    ok = False
                ev.append({"e": "ret", "ok": ok})
                if ok and len(ev) == at + 2:  # nothing passed
                    del ev[at:]
                    if ev and ev[-1]["e"] == "apps":
                        ev[-1]["b"] = n
                    else:
                        ev.append({"e": "apps", "a": n, "b": n})
        elif op["op"] == "bad":
            ev.append({"e": "app", "i": 0})
            try:
                w.append({"i": "one", "t": "x", "f": 0.5})
                ok = True
            except Exception:
                ok = False
            ev.append({"e": "ret", "ok": ok})
        elif op["op"] == "fin":
            ev.append({"e": "fin"})
            try:
                r = w.finalize()
                ev.append({"e": "fret", "ok": True, "n": r if isinstance(r, int) else -1})
            except Exception:
                ev.append({"e": "fret", "ok": False, "n": -1})
        elif op["op"] == "del":
            ev.append({"e": "del"})
            del w
            gc.collect()
            ev.append({"e": "fret", "ok": True, "n": n})
    # an inner writer may keep its batches (to write them later)
    ev.append({"e": "kept", "same": all(records(d) == rows for d, rows in kept)})
    return {"batch": 100}, {"ev": ev}
