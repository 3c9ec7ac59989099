"""C27 a record is accepted exactly when it meets the schema and the expectations"""
from checks import writer_scn as W

GOOD = {
    "VARCHAR": ["", "x", "12", "2024-01-01", "true", "caf\u00e9"],
    "INTEGER": [0, 1, -5, 12, 2**40],
    "DOUBLE": [0.0, 1.5, -2.25],
    "BOOLEAN": [True, False],
    "TIMESTAMP": [{"$dt": "2024-02-29T23:59:59"}, {"$dt": "1999-12-31T00:00:00"}],
    "ARRAY": [["a"], ["a", "b"], ["", "c", "d"]],
    "DATE": [{"$d": "2024-02-29"}, {"$d": "1999-12-31"}],
    "STRUCT": [{"k": 1}, {"k": {"j": "x"}, "l": None}],
}
FORMS = ["list", "columns", "fields", "text", "long", "file", "object"]
# values which are no instance of the type (nor of a subtype, as True is of int)
BAD = {t: [v for u, vs in GOOD.items() if u != t and (t, u) not in (("INTEGER", "BOOLEAN"), ("DATE", "TIMESTAMP")) for v in vs] for t in GOOD}
GOOD["ANY"] = [v for vs in GOOD.values() for v in vs]
EXPECT = [
    ("exists", "expect_column_to_exist"),
    ("notnull", "expect_column_values_to_not_be_null"),
    ("inset", "expect_column_values_to_be_in_set"),
    ("between", "expect_column_values_to_be_between"),
    ("length", "expect_column_values_length_to_be_between"),
]


def expectation(rng, cols):
    k, name = rng.choice(EXPECT)
    col = rng.choice(cols)
    e = {"k": k, "expectation": name, "column": col["name"]}
    if k == "inset":
        e["symbols"] = [v for v in GOOD[col["type"]] if not isinstance(v, (dict, list))][:rng.choice([1, 2, 3])]
        if not e["symbols"]:
            return expectation(rng, cols)
    if k == "between":
        if col["type"] != "INTEGER":
            return {"k": "exists", "expectation": "expect_column_to_exist", "column": col["name"]}
        e.update(minimum=rng.choice([-5, 0]), maximum=rng.choice([1, 12]))
    if k == "length":
        if col["type"] not in ("VARCHAR", "ARRAY"):
            return {"k": "notnull", "expectation": "expect_column_values_to_not_be_null", "column": col["name"]}
        e.update(minimum=rng.choice([0, 1]), maximum=rng.choice([1, 2, 4]))
    return e


def subtype(type, v):
    """a value which Python takes as one of the type, though it's another"""
    return (type == "INTEGER" and isinstance(v, bool)) or (type == "DATE" and isinstance(v, dict) and "$dt" in v)


def alike(rec, exps):
    """a value which Python takes as equal to one of another type"""
    return any(v == x and type(v) is not type(x) for e in exps if e["k"] == "inset" for v in [rec.get(e["column"])] for x in e["symbols"])


def variant(rng, rec, between):
    rec = dict(rec)
    a, b = rng.choice(list(rec)), rng.choice(list(rec))
    how = rng.choice(["null", "move", "swap", "drop", "rename"])
    if how == "null":
        rec[a] = None
    elif how == "move":
        nulls = [k for k in rec if rec[k] is None]
        if nulls and nulls[0] not in between and rec[a] is not None:
            rec[nulls[0]], rec[a] = rec[a], None
    elif how == "swap":
        if a not in between and b not in between:
            rec[a], rec[b] = rec[b], rec[a]
    elif how == "drop":
        del rec[a]
    else:
        rec = {k + "2" if k == a else k: v for k, v in rec.items()}
    return rec


def scenario(rng, names=("x", "y", "z")):
    fmt = rng.choice(["jsonl", "zstd", "parquet", "jsonl"])
    types = [t for t in GOOD if fmt != "parquet" or t not in ("STRUCT", "ANY")]
    cols = [{"name": n, "type": rng.choice(types), "nullable": rng.random() < 0.5} for n in names[: rng.choice([1, 2, 3])]]
    for c in cols:
        if c["type"] == "ARRAY":
            c["element_type"] = "VARCHAR"
    exps = [expectation(rng, cols) for _ in range(rng.choice([0, 0, 1, 2]))]
    free = fmt != "parquet" and rng.random() < 0.15  # explicitly without a schema
    between = {e["column"] for e in exps if e["k"] in ("between", "length")}
    ops = []
    before = {}
    for _ in range(rng.choice([1, 4, 10, 25])):
        if before and rng.random() < 0.3:  # nearly the one before
            rec = variant(rng, before, between)
            if alike(rec, exps) or any(subtype(c["type"], rec.get(c["name"])) for c in cols):
                continue
            ops.append(dict(w=0, op="app", rec=rec, valid=1))
            before = rng.choice([rec, before])
            continue
        rec = {}
        for c in cols:
            r = rng.random()
            if r < 0.12:
                if not (c["name"] in between and False):
                    continue
            elif r < 0.27:
                rec[c["name"]] = None
            elif r < 0.40 and c["name"] not in between and c["type"] != "ANY":
                rec[c["name"]] = rng.choice(BAD[c["type"]])
            else:
                v = rng.choice(GOOD[c["type"]])
                rec[c["name"]] = 7 if c["name"] in between and c["type"] == "INTEGER" and isinstance(v, int) and v > 2**31 else v
        if alike(rec, exps):
            continue
        before = dict(rec)
        if rng.random() < 0.1:  # a field the schema doesn't have
            rec[rng.choice(["w", "X", "x ", "y2", ""])] = rng.choice([None, 1, "x"])
        if rng.random() < 0.3:
            rec = dict(rng.sample(list(rec.items()), len(rec)))
        ops.append(dict(w=0, op="app", rec=rec, valid=1, model=int(rng.random() < 0.15)))
    ops.append(dict(w=0, op="fin", f=0))
    kind = rng.choice(["plain", "batch"])
    w = dict(kind=kind, fmt=fmt, dataset="bucket/data", date="2024-02-29", partitions=["{yyyy}/{mm}/{dd}"], ds="d", frame=int(kind == "batch"),
             blob_size=rng.choice([1, 50, None]) if fmt != "parquet" else rng.choice([200, None]), schema=False if free else cols, form=rng.choice(FORMS), expectations=exps)
    reads = [dict(ds="d", dataset="bucket/data", start="2024-02-29", end="2024-02-29", partitions=["{yyyy}/{mm}/{dd}"])]
    return dict(kind="schema", backend="mem", rows=1, writers=[w], ops=ops, reads=reads)


def run(ctx):
    ctx.mc("MC_Schema")
    ctx.mc("MC_Schema", over={"INVARIANT": "SomeAccepted"}, expect_violation="SomeAccepted")
    pairs = ctx.gen("MC_Schema", over={"INVARIANT": "Emit"}, limit=ctx.n(800, 5000))
    scns = []
    for p in pairs:
        cols, row = p["s"]["cols"], p["s"]["row"]
        types = {c["n"]: c["ty"] for c in cols}
        def val(f):
            if f["ty"] == "NULL":
                return None
            if types.get(f["n"]) == "INTEGER" and f["ty"] == "BOOLEAN":  # True is an int in Python
                return "text"
            return ctx.rng.choice(GOOD[f["ty"]])
        rec = {f["n"]: val(f) for f in row}
        good = {c["n"]: ctx.rng.choice(GOOD[c["ty"]]) for c in cols}
        schema = [dict(name=c["n"], type=c["ty"], nullable=c["nul"], **({"element_type": "VARCHAR"} if c["ty"] == "ARRAY" else {})) for c in cols]
        fmt = ctx.rng.choice(["jsonl", "jsonl", "jsonl" if "ANY" in types.values() else "parquet"])
        w = dict(kind=ctx.rng.choice(["plain", "batch"]), fmt=fmt, dataset="bucket/data", date="2024-02-29", partitions=["{yyyy}/{mm}/{dd}"], ds="d",
                 blob_size=ctx.rng.choice([1, None]), schema=schema, form=ctx.rng.choice(FORMS), expectations=[])
        w["frame"] = int(w["kind"] == "batch")
        ops = [dict(w=0, op="app", rec=r, valid=1) for r in (good, rec, good)] + [dict(w=0, op="fin", f=0)]
        scns.append(dict(kind="pair", backend="mem", rows=1, writers=[w], ops=ops,
                         reads=[dict(ds="d", dataset="bucket/data", start="2024-02-29", end="2024-02-29", partitions=["{yyyy}/{mm}/{dd}"])]))
    scns += [scenario(ctx.rng) for _ in range(ctx.n(700, 9000))]
    cases = ctx.drive("writers", scns)
    ctx.judge("T_Schema", cases, cfg="T_Schema.cfg")
    ctx.assumptions.append("a datetime given for a DATE column is left out: datetime is a kind of date in Python")
    ctx.assumptions.append("numbers and booleans which are equal to one another in Python aren't mixed in expectations of sets")
    ctx.assumptions.append("a Python bool given for an INTEGER column is left out: bool is a kind of int in Python")
