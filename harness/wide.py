"""
Large sets and large numbers.

scenario: {kind: groups, n, k, seed, store} | {kind: big, values [[k, "number"]..], store}
"""
import random

import common  # noqa: F401

from mabel import DictSet
from mabel.data.internals.dictset import STORAGE_CLASS

BASE = 2**20


def digits(v):
    if isinstance(v, bool) or (not isinstance(v, int) and v != int(v)):
        return [9]
    v = int(v)
    s, x = (-1 if v < 0 else 1), abs(v)
    return [s * ((x // BASE**i) % BASE) for i in range(4)] if x < BASE**4 else [9]


def make(rows, store):
    if store == "list":
        return DictSet(rows)
    if store == "gen":
        return DictSet(r for r in rows)
    return DictSet((r for r in rows), storage_class=getattr(STORAGE_CLASS, store))


def run(scn):
    aggs = [("COUNT", "*"), ("SUM", "v"), ("MIN", "v"), ("MAX", "v")]
    if scn["kind"] == "groups":
        n, k = scn["n"], scn["k"]
        rows = [{"g": i % k, "v": i // k} for i in range(n)]
        random.Random(scn["seed"]).shuffle(rows)
        res, err = [], ""
        try:
            for r in make(rows, scn["store"]).group_by("g").aggregate(aggs):
                r = r.as_dict() if hasattr(r, "as_dict") else r
                res.append([int(r["g"])] + [int(r[f"{f}({c})"]) for f, c in aggs])
        except Exception as e:
            err = type(e).__name__
        return dict(kind="groups", n=n, k=k), dict(err=err, res=res)
    rows = [{"k": k, "v": int(v)} for k, v in scn["values"]]
    answers, err = [], ""
    try:
        for op in ("sum", "min", "max"):
            answers.append(dict(op=op, key=-1, r=digits(getattr(make(rows, scn["store"]), op)("v"))))
        for r in make(rows, scn["store"]).group_by("k").aggregate(aggs[1:]):
            for f in ("SUM", "MIN", "MAX"):
                answers.append(dict(op=f.lower(), key=r["k"], r=digits(r[f"{f}(v)"])))
    except Exception as e:
        err = type(e).__name__
        if scn.get("debug"):
            raise
    return dict(kind="big", rows=[dict(k=r["k"], v=digits(r["v"])) for r in rows]), dict(err=err, answers=answers)
