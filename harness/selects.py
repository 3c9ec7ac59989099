"""
Select expressions.

scenario: fields [{e, as}], rows [[[name, value]]], style (a seed), via evaluator | reader | sql
 e: {k: col, n: name, bt: in backticks} | {k: const, src} | {k: fn, f, a: [e]} | {k: all}
"""
import datetime
import hashlib
import random

import orjson
from common import REAL_DATE, REAL_DATETIME, Mem, cps, mem_reader, unjson
from orso.cityhash import CityHash64

from mabel import Reader
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.readers.internals.sql_reader import SqlReader


def venc(v):
    if v is None:
        return [0]
    if isinstance(v, bool):
        return [1, int(v)]
    if isinstance(v, int) and abs(v) < 2**31:
        return [2, v]
    if isinstance(v, float) and abs(v) < 2**31 / 1000 and abs(v * 1000 - round(v * 1000)) < 1e-6:
        return [8, round(v * 1000)]
    if isinstance(v, str):
        return [3] + cps(v)
    if isinstance(v, (datetime.datetime, REAL_DATETIME)):
        return [4, v.year, v.month, v.day, v.hour, v.minute, v.second]
    if isinstance(v, (datetime.date, REAL_DATE)):
        return [5, v.year, v.month, v.day]
    if isinstance(v, datetime.time):
        return [6, v.hour, v.minute, v.second]
    if isinstance(v, (list, tuple)):
        return [7, [venc(x) for x in v]]
    return [9] + cps(repr(v))


def const(src):
    if src[0] in "'\"":
        return src[1:-1]
    if src.upper() in ("TRUE", "FALSE"):
        return src.upper() == "TRUE"
    if src.upper() in ("NULL", "NONE"):
        return None
    return float(src) if "." in src else int(src)


def tree(e):
    k = e["k"]
    if k == "col":
        return dict(k=k, name=cps(e["n"]), src=cps(f"`{e['n']}`" if e.get("bt") else e["n"]))
    if k == "const":
        return dict(k=k, src=cps(e["src"]), v=venc(const(e["src"])))
    if k == "fn":
        return dict(k=k, f=e["f"], name=cps(e["f"]), a=[tree(x) for x in e["a"]])
    return dict(k="all")


def render(e, rng):
    k = e["k"]
    gap = lambda: rng.choice(["", "", "", " ", "  "])
    if k == "col":
        return f"`{e['n']}`" if e.get("bt") else e["n"]
    if k == "const":
        return e["src"]
    if k == "fn":
        name = rng.choice([e["f"], e["f"], e["f"].lower(), e["f"].title()])
        return name + gap() + "(" + ",".join(gap() + render(x, rng) + gap() for x in e["a"]) + ")"
    return "*"


def run(scn):
    rng = random.Random(scn["style"])
    text = ",".join(rng.choice(["", " "]) + render(f["e"], rng) + (rng.choice([" AS ", " as ", "  As "]) + f["as"] if f["as"] else "") + rng.choice(["", " "]) for f in scn["fields"])
    rows = [{k: unjson(v) for k, v in r} for r in scn["rows"]]
    hs = []
    for r in rows:
        for v in r.values():
            if isinstance(v, (str, int, bool)) or v is None:
                s = str(v)
                hs += [["MD5", cps(s), cps(hashlib.md5(s.encode()).hexdigest())], ["HASH", cps(s), cps(format(CityHash64(s), "X"))]]
    s = "None"
    hs += [["MD5", cps(s), cps(hashlib.md5(s.encode()).hexdigest())], ["HASH", cps(s), cps(format(CityHash64(s), "X"))]]
    before = [[[cps(k), venc(v)] for k, v in r.items()] for r in rows]
    err, out, names = "", [], []
    via = scn["via"]
    try:
        if via == "evaluator":
            ev = Evaluator(text)
            names = ev.fields()
            out = [ev(r) for r in rows]
        else:
            store = Mem()
            cut = rng.randrange(len(rows) + 1)
            for i, part in enumerate((rows[:cut], rows[cut:])):
                store.blobs[f"b/d/{i}.jsonl"] = b"".join(orjson.dumps(r) + b"\n" for r in part)
            if via == "reader":
                out = list(Reader(dataset="b/d", select=text, inner_reader=mem_reader(store), partitions=None))
            else:
                out = list(SqlReader(f"SELECT {text} FROM b.d", inner_reader=mem_reader(store), partitions=None))
        out = [r.as_dict() if hasattr(r, "as_dict") else dict(r) for r in out]
    except Exception as e:
        if scn.get("debug"):
            raise
        err = type(e).__name__
    after = [[[cps(k), venc(v)] for k, v in r.items()] for r in rows]
    judged = dict(fields=[dict(e=tree(f["e"]), **{"as": cps(f["as"])}) for f in scn["fields"]], rows=before, hs=hs, names=int(via == "evaluator"), text=ascii(text))
    return judged, dict(err=err, rows=[[[cps(str(k)), venc(v)] for k, v in r.items()] for r in out], after=after, names=[cps(n) for n in names])
