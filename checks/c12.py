"""C12 a streamed record is stored at exactly the paths its values and time select"""
import datetime

NAMES = ["k", "kk", "user id", "l"]
TEXTS = ["a", "b", "abc", "A", "7", "x y", "a!", "a/b", "../up", "caf\u00e9s", "{k}", "{kk}", "{yyyy}", "a.b", "user_name", "%41", "b\\c", "None", "mm", "\u0661\u0662z", "#1"]


def cp(s):
    return [ord(c) for c in s]


def template(rng):
    """(dataset, partitions, parts)"""
    n = rng.choice([0, 1, 1, 2, 3])
    parts = [("lit", "b/set" + rng.choice(["", "-1", "_two"]))]
    fields = [rng.choice(NAMES) for _ in range(n)]
    for f in fields:
        parts.append(("lit", rng.choice(["/", "/", "/", "/by_", "/x-", "-" if parts[-1][0] == "fld" else "/"])))
        parts.append(("fld", f))
        if rng.random() < 0.15:
            parts.append(("lit", rng.choice(["_z", "/tail"])))
    dates = rng.choice([[], [("year_", "yyyy"), ("/month_", "mm"), ("/day_", "dd")], [("", "yyyy"), ("/", "mm"), ("/", "dd"), ("/hour_", "HH")],
                        [("", "yyyy"), ("-", "mm"), ("-", "dd"), ("/by_hour/hour=", "HH"), ("/", "MM")], [("", "dd"), ("", "HH")]])
    ds = "".join(v if k == "lit" else "{" + v + "}" for k, v in parts)
    if not dates:
        return ds, None, parts
    dp = []
    for lit, d in dates:
        dp += [("lit", lit), ("dat", d)] if lit else [("dat", d)]
    extra = []
    if rng.random() < 0.15:  # a field in the partitions
        f = rng.choice(NAMES)
        extra = [("lit", "/by_" ), ("fld", f)]
    text = "".join(v if k == "lit" else "{" + v + "}" for k, v in dp + extra)
    return ds, [text], parts + [("lit", "/")] + dp + extra


def value(rng, empties):
    def one():
        r = rng.random()
        if r < 0.1 and empties:
            return rng.choice(["", "!!", "/"])
        if r < 0.25:
            return rng.choice([0, 7, -3, 1.5, True, False, None])
        return rng.choice(TEXTS)

    if rng.random() < 0.35:
        vs = [one() for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < 0.3:
            vs.append(rng.choice(vs))
        return vs
    return one()


def scenario(rng, clock):
    ds, partitions, parts = template(rng)
    fmt = rng.choice(["jsonl", "jsonl", "zstd", "parquet"])
    fields = sorted({v for k, v in parts if k == "fld"})
    schema = fmt == "parquet" or rng.random() < 0.3
    date = None
    fixed = None
    if not clock or rng.random() < 0.3:
        t = datetime.datetime(2024, rng.choice([1, 2, 12]), rng.choice([1, 28, 29]), rng.choice([0, 9, 23]), rng.choice([0, 59]), rng.choice([0, 7]))
        kind = rng.choice(["date", "dt", "text", "textdate"])
        if kind in ("date", "textdate"):
            t = t.replace(hour=0, minute=0, second=0)
        fixed = t
        date = {"date": {"$d": t.date().isoformat()}, "dt": {"$dt": t.isoformat()}, "text": t.isoformat(sep=rng.choice([" ", "T"])), "textdate": t.date().isoformat()}[kind]
    types = {f: rng.choice(["VARCHAR", "VARCHAR", "ARRAY"]) for f in NAMES}
    cols = [{"name": "id", "type": "INTEGER"}, {"name": "n", "type": "INTEGER"}] + [dict(name=f, type=types[f], nullable=True, **({"element_type": "VARCHAR"} if types[f] == "ARRAY" else {})) for f in NAMES]
    now = datetime.datetime(2024, 2, 28, 22, 58, 20) if rng.random() < 0.5 else datetime.datetime(2023, 12, 31, 23, 57, 20)
    start = now
    recs, seen = [], []
    for i in range(rng.choice([1, 2, 5, 9])):
        r = {"id": i, "n": i}
        empty = rng.choice(fields) if fields and rng.random() < 0.5 else None
        for f in NAMES:
            if rng.random() < 0.12 and not schema:
                continue
            v = value(rng, f == empty)
            if schema:
                if types[f] == "ARRAY":
                    v = [str(x) for x in v] if isinstance(v, list) else [str(v)]
                else:
                    v = v[0] if isinstance(v, list) else v
                    v = v if v is None else str(v)
            r[f] = v
        bad = 0
        if schema and rng.random() < 0.3:
            bad = 1
            x = rng.choice(["n", "excess", "missing"])
            if x == "n":
                r["n"] = "text"
            elif x == "excess":
                r["other"] = 1
            else:
                del r["n"]
        at = None
        if clock:
            now += datetime.timedelta(seconds=rng.choice([0, 0, 60, 3600, 86400, 7200 + 60]))
            at = now.isoformat(sep=" ")
        t = fixed or now
        vals = {}
        for f in NAMES:
            v = r.get(f)
            vals[f] = [cp(str(x)) for x in (v if isinstance(v, list) else [v])]
        recs.append({"r": r, "at": at})
        seen.append({"id": i, "bad": bad, "vals": vals, "time": [t.year, t.month, t.day, t.hour, t.minute, t.second]})
    readback = None
    if not fields and partitions and "/".join(partitions) in ("year_{yyyy}/month_{mm}/day_{dd}", "{yyyy}/{mm}/{dd}/hour_{HH}"):
        a, b = (fixed, fixed) if fixed else (start, now)
        readback = dict(dataset=ds, partitions=partitions, start_date={"$dt": a.replace(hour=0).isoformat()}, end_date={"$dt": b.replace(hour=23).isoformat()})
    judge = dict(tpl=[dict(k=k, v=cp(v) if k == "lit" else [], f="" if k == "lit" else v) for k, v in parts], recs=seen, readback=int(readback is not None))
    return dict(dataset=ds, partitions=partitions, fmt=fmt, schema=cols if schema else None, blob_size=rng.choice([None, 1, 60]) if fmt != "parquet" else None,
                date=date, recs=recs, clock=start.isoformat(sep=" ") if clock else None, readback=readback, judge=judge, kind="clock" if clock else "dated")


def run(ctx):
    ctx.mc("MC_Route")
    ctx.mc_broken("MC_Route", ["rawdistinct", "first", "zip", "local", "nobackout"], invariant="Contract")
    ctx.judge("T_Route", ctx.drive("route", [scenario(ctx.rng, False) for _ in range(ctx.n(900, 12000))]))
    for tz in ("0", "5", "-8"):
        ctx.judge("T_Route", ctx.drive("route", [scenario(ctx.rng, True) for _ in range(ctx.n(250, 3000))], env={"VERIF_TZ_OFFSET": tz}))
    ctx.assumptions += ["the text of a value is Python's str() of it (None when it is missing)", "a record whose value is an empty list selects no path"]
