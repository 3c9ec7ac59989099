"""Scenarios for the writers (C01, C02, C03, C14, C27)"""

TEMPLATES = [
    (["year_{yyyy}/month_{mm}/day_{dd}"], "day"),
    (["{yyyy}/{mm}/{dd}"], "day"),
    (["date_{yyyy}-{mm}-{dd}"], "day"),
    (["year_{yyyy}", "month_{mm}", "day_{dd}"], "day"),
    (["year_{yyyy}/month_{mm}/day_{dd}/hour_{HH}"], "hour"),
    (["{yyyy}/{mm}"], "month"),
    (None, "none"),
]
DATASETS = ["bucket/data", "bucket/data2", "bucket/deep/er/set", "b-2/a_b", "bucket/data/v1"]
DATES = ["2024-02-29", "2023-12-31", "2024-01-01", "2022-07-09", "2024-11-30"]
SCHEMA = [
    {"name": "i", "type": "INTEGER"},
    {"name": "v", "type": "VARCHAR"},
    {"name": "d", "type": "DOUBLE"},
    {"name": "b", "type": "BOOLEAN"},
    {"name": "t", "type": "TIMESTAMP"},
    {"name": "a", "type": "ARRAY", "element_type": "VARCHAR"},
]
TEXTS = ["", "a", "null", "None", "caf\u00e9", "\u4f60\u597d", "line\nbreak", "tab\t", 'quo"te', "back\\slash", "{", "}", "\u2028x",
         "x" * 120, " lead", "0", "\U0001f600", "a,b", "\r\n", "\x00z", "<b>"]


def text(rng):
    return rng.choice(TEXTS) if rng.random() < 0.6 else "".join(rng.choice("abcXYZ 0123\u00e9\"\\\n") for _ in range(rng.randrange(40)))


def number(rng):
    return rng.choice([0, 1, -1, 7, 255, 2**31, -(2**53), 2**62, 0.5, -0.0, 1e-9, 1.7976931348623157e308, 0.1, 3.0, 123456.789])


def value(rng, depth=2):
    k = rng.randrange(8 if depth else 5)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return number(rng)
    if k in (3, 4):
        return text(rng)
    if k == 5:
        return [value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(["k", "a b", "x.y", "\u00e9", "", "K", "id"]) + str(rng.randrange(3)): value(rng, depth - 1) for _ in range(rng.randrange(4))}


def json_record(rng, i):
    r = {"i": i} if rng.random() < 0.8 else {}
    for _ in range(rng.randrange(5)):
        r[rng.choice(["name", "v", "n.m", "Z", "k 1", "\u00fc", "tags"])] = value(rng)
    return r


def row(rng, i):
    """a row for SCHEMA"""
    def nul(x):
        return None if rng.random() < 0.2 else x
    return {
        "i": nul(rng.choice([i, -i, 0, 2**62])),
        "v": nul(text(rng).replace("\x00", "")),
        "d": nul(rng.choice([0.5, -1.25, 1e300, 0.1, 3.0, 0.0])),
        "b": nul(rng.random() < 0.5),
        "t": nul({"$dt": rng.choice(["2024-02-29T23:59:59", "1999-12-31T00:00:00", "2024-01-01T01:02:03.000004"])}),
        "a": nul([text(rng).replace("\x00", "") for _ in range(rng.randrange(1, 3))]),
    }


def bad_row(rng, i):
    r = row(rng, i)
    r[rng.choice("ivdb")] = rng.choice([[1], {"x": 1}])
    return r


def when(rng, gran):
    d = rng.choice(DATES)
    if gran == "none":
        return rng.choice([None, d])
    if gran == "hour":
        t = f"{d}T{rng.choice([0, 9, 23]):02d}:00:00"
        return rng.choice([{"$dt": t}, t])
    return rng.choice([d, {"$d": d}, {"$dt": d + f"T{rng.randrange(24):02d}:11:00"}])


def day_of(date):
    if isinstance(date, dict):
        return next(iter(date.values()))[:10]
    return date[:10] if date else None


def as_read(rng, date, gran):
    """a start (and end) for a Reader of what was written for that date"""
    if gran == "none":
        return None
    if gran == "hour":
        return {"$dt": next(iter(date.values())) if isinstance(date, dict) else date}
    d = day_of(date)
    return rng.choice([d, {"$d": d}])


def slot(ds, date, tpl, gran):
    t = next(iter(date.values())) if isinstance(date, dict) else (date or "")
    cut = {"day": 10, "hour": 13, "month": 7, "none": 0}[gran]
    return f"{ds}|{t[:cut]}|{tpl}"


def session(rng, kind_weights=(3, 2), max_writers=3, fmts=("jsonl", "zstd", "parquet"), backend=None, records=25):
    """a random interleaved session of a few writers, all read back"""
    tpl, gran = rng.choice(TEMPLATES)
    writers, reads, seen = [], [], {}
    nw = rng.choice([1, 1, 2, max_writers])
    for w in range(nw):
        kind = rng.choices(["plain", "batch"], kind_weights)[0]
        if w and rng.random() < 0.5:
            tpl, gran = rng.choice(TEMPLATES)
        date = when(rng, gran)
        if w and rng.random() < 0.5 and writers[0]["kind"] == kind == "plain":
            ds, date, tpl, gran = writers[0]["dataset"], writers[0]["date"], writers[0]["partitions"], writers[0]["gran"]
        else:
            ds = rng.choice(DATASETS) + "/" + str(w)
        fmt = rng.choice(fmts)
        s = slot(ds, date, tpl, gran)
        wr = dict(kind=kind, fmt=fmt, dataset=ds, date=date, partitions=tpl, gran=gran, ds=s, frame=1 if kind == "batch" else 0,
                  blob_size=rng.choice([1, 30, 100, 400, 2000, None] if fmt != "parquet" else [1, 200, 900, None, None]),
                  schema=SCHEMA if fmt == "parquet" or rng.random() < 0.2 else False, always=kind == "batch" and rng.random() < 0.3)
        writers.append(wr)
        if s not in seen:
            seen[s] = 1
            r = as_read(rng, date, gran)
            reads.append(dict(ds=s, dataset=ds, start=r, end=r, partitions=tpl))
    ops, live = [], list(range(nw))
    n = rng.choice([0, 1, 3, 8, records])
    for i in range(n * nw):
        w = rng.choice(live)
        wr = writers[w]
        valid = rng.random() > 0.1
        if wr["schema"]:
            rec = row(rng, i) if valid else bad_row(rng, i)
        else:
            rec = json_record(rng, i)
            if not valid:
                rec["bad"] = {"$set": [1]}
        ops.append(dict(w=w, op="app", rec=rec, valid=int(valid), model=int(rng.random() < 0.12)))
    for w in live:
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops.append(dict(w=w, op="fin", f=0))
    return dict(kind="session", backend=backend or rng.choice(["mem", "mem", "disk"]), writers=writers, ops=ops, reads=reads)


def frames(rng):
    """batches for the same date, one after the other: the last complete one is what is read"""
    tpl, gran = rng.choice(TEMPLATES[:5])
    date, ds = when(rng, gran), rng.choice(DATASETS)
    s = slot(ds, date, tpl, gran)
    k = rng.choice([2, 3, 4])
    writers, ops = [], []
    secs = sorted(rng.sample(range(0, 86399), k))
    for w in range(k):
        fmt = rng.choice(["jsonl", "zstd", "parquet"])
        writers.append(dict(kind="batch", fmt=fmt, dataset=ds, date=date, partitions=tpl, gran=gran, ds=s, frame=w + 1,
                            blob_size=rng.choice([1, 50, 500, None]) if fmt != "parquet" else rng.choice([300, None]),
                            schema=SCHEMA if fmt == "parquet" else False, always=rng.random() < 0.3))
        x = secs[w]
        ops.append(dict(w=w, op="clock", at=f"2024-03-05 {x//3600:02d}:{x//60%60:02d}:{x%60:02d}"))
        ops.append(dict(w=w, op="new"))
        for i in range(rng.choice([0, 1, 3, 12])):
            ops.append(dict(w=w, op="app", rec=row(rng, i) if fmt == "parquet" else json_record(rng, i), valid=1))
        for _ in range(rng.choice([1, 1, 2])):
            ops.append(dict(w=w, op="fin", f=int(rng.random() < 0.25)))
    r = as_read(rng, date, gran)
    return dict(kind="frames", backend=rng.choice(["mem", "disk"]), clock="2024-03-05 00:00:00", writers=writers, ops=ops,
                reads=[dict(ds=s, dataset=ds, start=r, end=r, partitions=tpl)])


def replay(rng, hist, fmt, unit=None, kind="batch", always=False, sized=True, limit=4, backend="mem", faults=True):
    """a behaviour printed by MC_Writer, as a session of one writer"""
    unit = unit or rng.choice([24, 25, 37])
    ops = []
    if fmt == "text":  # anything can be text
        hist = [h for h in hist if h["valid"]]
    for i, h in enumerate(hist):
        if h["op"] == "app":
            o = dict(w=0, op="app", valid=h["valid"], d=h["d"] if faults else 0, m=0)
            if fmt == "parquet":
                o["rec"] = {"i": i, "v": "x" * (40 * h["len"]), "d": 0.5, "b": True, "t": None, "a": None}
                if not h["valid"]:
                    o["rec"]["i"] = "no"
            elif h["valid"]:
                o["len"] = h["len"] * unit
            else:
                o["rec"] = {"i": i, "bad": {"$set": [1]}}
            ops.append(o)
        else:
            ops.append(dict(w=0, op="fin", f=h["f"], d=h["d"] if faults else 0, m=h["m"] if faults else 0, explicit=rng.random() < 0.5))
    tpl, gran = rng.choice(TEMPLATES)
    date, ds = when(rng, gran), rng.choice(DATASETS)
    s = slot(ds, date, tpl, gran)
    r = as_read(rng, date, gran)
    size = limit * unit if fmt != "parquet" else rng.choice([1, 60, 150, 400])
    reads = [] if fmt == "text" or gran == "month" and False else [dict(ds=s, dataset=ds, start=r, end=r, partitions=tpl)]
    return dict(kind="replay-" + fmt, backend=backend,
                writers=[dict(kind=kind, fmt=fmt, dataset=ds, date=date, partitions=tpl, gran=gran, ds=s, frame=1 if kind == "batch" else 0,
                              blob_size=size, schema=SCHEMA if fmt == "parquet" else False, always=always, sized=sized and fmt != "parquet")],
                ops=ops, reads=reads)
