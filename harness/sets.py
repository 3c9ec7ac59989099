"""
Calls on a DictSet, each a chain of operations and one which gives an answer.

scenario: rows [{..}] or many {"n":, "seed":, "size":}, store (list|gen|MEMORY|DISK|COMPRESSED_MEMORY),
fresh (a new set for every call), ids (answer in numbers of rows, for large sets),
calls [{"chain": [op..], "end": op}]. An op has k and its parameters, and "how" for the way it is called.
"""
import copy
import decimal
import fractions
import random

import common
import orjson
from common import canon, enc, unjson

from mabel import DictSet
from mabel.data.internals.dictset import STORAGE_CLASS


def encv(v):
    if isinstance(v, list) and all(not isinstance(x, (list, dict)) for x in v):
        out = [7, len(v)]
        for x in v:
            e = enc(x)
            out += [len(e)] + e
        return out
    return enc(v)


IDS = False


def row(r):
    if IDS:
        return common.token(r)
    r = r.as_dict() if hasattr(r, "as_dict") else r
    if not isinstance(r, dict):
        return {"_": [9] + common.cps(repr(r)[:60])}
    return dict({str(k): encv(v) for k, v in r.items()}, _=[0])


def fraction(v):
    if v is None:
        return [0]
    f = fractions.Fraction(v).limit_denominator(20000)
    return [8, f.numerator, f.denominator]


def literal(v):
    return "'" + v + "'" if isinstance(v, str) else str(v)


PY = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def step(ds, o):
    how = o.get("how")
    if o["k"] == "select":
        cols = o["cols"]
        if how == "one":
            return ds.select(cols[0])
        if how == "tuple":
            return ds.select(tuple(cols))
        if how == "set":
            return ds.select(set(cols))
        if how == "project":
            return ds.project(cols)
        if how == "item":
            return ds[tuple(cols)] if len(cols) > 1 else ds[cols[0]]
        return ds.select(list(cols))
    if o["k"] == "all":
        return ds.select({"star": "*", "list": ["*"], "more": ["*", "zz"]}[how])
    if o["k"] == "filter":
        f, c, v = o["f"], o["c"], unjson(o["v"])
        if how == "dnf":
            return ds.filter([(f, c, v)])
        if how == "tuple":
            return ds.filter((f, c, v))
        if how == "text":
            return ds.filter(f"`{f}` {c} {literal(v)} AND `{f}` IS NOT NULL")
        return ds.filter(lambda r: r.get(f) is not None and PY[c](r.get(f), v))
    if o["k"] == "distinct":
        return ds.distinct(*o["cols"])
    if o["k"] == "take":
        return ds.take(o["n"])
    raise ValueError(o)


def rows_of(ds, how, store):
    if how == "collect":
        return ds.collect_list()
    if how == "itake":
        return list(ds.itake(10**9))
    if how == "next":
        ds = iter(ds)
        out = []
        while True:
            try:
                out.append(next(ds))
            except StopIteration:
                return out
    return [r for r in ds]


def answer(ds, e, scn):
    k, how = e["k"], e.get("how")
    if k == "list":
        return [row(r) for r in rows_of(ds, how, scn["store"])]
    if k == "column":
        return [encv(v) for v in ds.collect_list(e["f"])]
    if k == "keys":
        return list(ds.keys(e["n"]) if e["n"] else ds.keys())
    if k == "count":
        return ds.count()
    if k == "first":
        r = ds.first()
        return [] if r is None else [row(r)]
    if k in ("min", "max", "sum"):
        return encv(getattr(ds, k)(e["f"]))
    if k == "min_max":
        return [encv(v) for v in ds.min_max(e["f"])]
    if k == "mean":
        return fraction(ds.mean(e["f"]))
    if k == "variance":
        return fraction(ds.variance(e["f"]))
    if k == "deviation":
        return fraction(ds.standard_deviation(e["f"]) ** 2)
    if k == "pandas":
        df = ds.to_pandas()
        rows = df.to_dict("records") if len(df.columns) else [{}] * len(df.index)
        # missing values and nulls aren't told apart in frames
        rows = [{c: v.item() if hasattr(v, "item") else v for c, v in r.items()} for r in rows]
        return {"cols": [str(c) for c in df.columns], "rows": [row({c: v for c, v in r.items() if v is not None and v == v}) for r in rows]}
    if k == "sort":
        if how == "default":
            return [row(r) for r in ds.sort_and_take(e["f"])]
        return [row(r) for r in ds.sort_and_take(e["f"], e["n"], e["desc"] == 1)]
    if k == "items":
        return [row(r) for r in ds.get_items(*e["at"])]
    if k == "sample":
        return [row(r) for r in ds.sample(e["p"])]
    if k == "groups":
        return [row(r) for r in ds.group_by(e["by"]).groups()]
    if k == "group":
        by = e["by"][0] if how == "one" else tuple(e["by"]) if how == "tuple" else list(e["by"])
        g = ds.group_by(by)
        call = e.get("call", "aggregate")
        if call == "count":
            res = g.count()
        elif call == "aggregate":
            aggs = [(f, c) for f, c, _ in e["aggs"]]
            res = g.aggregate(aggs[0] if how == "one" and len(aggs) == 1 else aggs)
        else:
            cols = [c for _, c, _ in e["aggs"]]
            res = getattr(g, call)(cols[0] if len(cols) == 1 else cols)
        out = []
        for r in res:
            x = row(r)
            for f, _, name in e["aggs"]:
                if f == "AVG" and r.get(name) is not None:
                    x[name] = fraction(r[name])
            out.append(x)
        return out
    if k == "sets":
        c = ds.collect_set(e["f"], dedupe=e["dedupe"] == 1)
        got = [{"key": encv(key), "rows": [row(r) for r in rs]} for key, rs in c.apply(list).items()]
        # the other ways of looking at it must agree
        n = c.count()
        if len(c) != len(got) or any(n[key] != len(list(rs)) for key, rs in c.apply(list).items()):
            raise ValueError("collect_set counts")
        for key, rs in c.apply(list).items():
            one = c[key]
            if key not in c or (key is not None and c.count(key) != len(rs)) or len(one) != len(rs):
                raise ValueError("collect_set " + repr(key))
            for col in {x for r in rs for x in r}:
                if one[col] != [r[col] for r in rs if col in r]:
                    raise ValueError("collect_set column " + repr(key))
        flat = [(encv(key), row(r)) for key, r in c.items()]
        if flat != [(g["key"], r) for g in got for r in g["rows"]]:
            raise ValueError("collect_set items")
        return got
    if k == "types":
        return [[c, {"int": "number", "float": "number", "numeric": "number"}.get(t, t)] for c, t in ds.types(e["n"]).items()]
    if k == "hash":
        rng = random.Random(e["seed"])
        rs = ds.collect_list()
        h = DictSet(iter(rs)).__hash__()
        other = [dict(rng.sample(list(r.items()), len(r))) for r in rng.sample(rs, len(rs))]
        same = DictSet(iter(other)).__hash__() == h
        changed = [dict(r) for r in other]
        changed[rng.randrange(len(changed))]["hash"] = "changed"
        return [same, DictSet(iter(changed)).__hash__() != h]
    raise ValueError(e)


def many(spec):
    rng = random.Random(spec["seed"])
    out = []
    for i in range(spec["n"]):
        x = rng.random()
        if x < 0.1 and out:
            out.append(dict(out[-1]))
        else:
            s = rng.choice(["a", "b\n", "\u00e9", "\u2028", "\\", '"', "\r\n"]) * rng.randrange(spec["size"] + 1)
            out.append({"i": i, "k": rng.randrange(spec["n"] // 3 + 1), "s": s, "e": {"x": [i, None, {"y": s[:3]}]}} if x < 0.9 else {"k": rng.randrange(3)})
    return out


def for_judge(c):
    def op(o):
        o = {k: v for k, v in o.items() if k not in ("p", "seed")}
        if "v" in o:
            o["v"] = encv(unjson(o["v"]))
        return o

    return dict(chain=[op(o) for o in c["chain"]], end=op(c["end"]))


def run(scn):
    global IDS
    IDS = bool(scn.get("ids"))
    rows = many(scn["many"]) if "many" in scn else [unjson(r) for r in scn["rows"]]
    before = [canon(r) for r in rows]
    seen = [row(r) for r in rows]
    store = scn["store"]

    def make():
        if store == "list":
            return DictSet(rows)
        if store == "gen":
            return DictSet(r for r in rows)
        return DictSet((r for r in rows) if scn.get("from_gen", True) else rows, storage_class=getattr(STORAGE_CLASS, store))

    answers, ds = [], None
    for c in scn["calls"]:
        err, a = "", []
        try:
            if ds is None or scn.get("fresh"):
                ds = make()
            d = ds
            for o in c["chain"]:
                d = step(d, o)
            a = answer(d, c["end"], scn)
        except Exception as e:
            err = type(e).__name__
            if scn.get("debug"):
                raise
        x = {"err": err, "a": a, "names": []}
        if c["end"]["k"] == "keys" and not err:
            # the names in each of the rows, in their order
            d = make()
            for o in c["chain"]:
                d = step(d, o)
            x["names"] = [list(r) for r in d]
        answers.append(x)
    changed = [canon(r) for r in rows] != before
    if IDS:
        first = {}
        for i, r in enumerate(seen, start=1):
            first.setdefault(r, i)
        ident = lambda rs: [first.get(r, 0) for r in rs]
        for c, x in zip(scn["calls"], answers):
            if c["end"]["k"] in ("list", "first", "items"):
                x["a"] = ident(x["a"])
        return dict(rows=ident(seen), k=[r["k"] for r in rows], calls=[for_judge(c) for c in scn["calls"]]), dict(answers=answers, changed=changed)
    return dict(rows=seen, calls=[for_judge(c) for c in scn["calls"]]), dict(answers=answers, changed=changed)
