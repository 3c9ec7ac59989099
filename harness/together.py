"""
Jobs done together, a step of one and a step of another, or each in its thread.

scenario: jobs [{kind, rows [[n, g, d]], a, b, r, k, c, form}], store (own | one), share (the same record objects for all),
          how (steps | threads | after), sched [number]
"""
import copy
import random
import sys
import threading

import orjson
from common import Mem, decode, mem_reader, mem_writer
from orso.schema import RelationSchema

from mabel import DictSet, Reader
from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data import BatchWriter, DatabaseWriter, StreamWriter
from mabel.data.readers.internals.sql_reader import SqlReader

SCHEMA = [{"name": "n", "type": "INTEGER"}, {"name": "g", "type": "INTEGER"}, {"name": "d", "type": "INTEGER"}]
POOL = {}
# [(object, what it was)] of each job
KEPT = []
# parameters which are the same objects for all jobs of a scenario
SHARED = {}


def begin():
    POOL.clear()
    SHARED.clear()
    daily = ["{yyyy}/{mm}/{dd}"]
    SHARED.update(list=[dict(c) for c in SCHEMA], fields={"name": "shared", "fields": [dict(c) for c in SCHEMA]}, columns={"columns": [dict(c) for c in SCHEMA]},
                  daily=daily, parts={None: None, "year_{yyyy}": ["year_{yyyy}"], "{yyyy}/{mm}/{dd}": daily},
                  expect=[{"expectation": "expect_column_to_exist", "column": "n"}, {"expectation": "expect_column_values_to_be_more_than", "column": "n", "threshold": 0}])
    before = copy.deepcopy(SHARED)
    SHARED["text"] = orjson.dumps({"name": "shared", "columns": SCHEMA}).decode()
    SHARED["made"] = RelationSchema.from_dict({"name": "shared", "columns": [dict(c) for c in SCHEMA]})
    return before


def rec(row, share):
    """the record of a row: the same object for every job when they share"""
    key = tuple(row)
    if share:
        return POOL.setdefault(key, {"n": row[0], "g": row[1], "d": row[2]})
    return {"n": row[0], "g": row[1], "d": row[2]}


def plain(r):
    r = r.as_dict if hasattr(r, "as_dict") else r
    return r() if callable(r) else r


def whole(v):
    return int(v) if v == int(v) else -1


def lines(recs):
    return b"".join(orjson.dumps(r) + b"\n" for r in recs)


def blobs_of(store, root):
    return [(k, v) for k, v in list(store.blobs.items()) if k.startswith(root + "/") and not k.endswith(".complete")]


def numbers(fmt, data):
    return [r["n"] for r in decode(fmt, data)[0]]


def job(j, store, root, share):
    """a generator: one step each time, and what the job gives at the end"""
    recs = [rec(r, share) for r in j["rows"]]
    form = j["form"]
    fmt = form["fmt"]
    name = root + "/data"
    rem, k = j["r"], j["k"]
    schema = SHARED[form["schema"]]
    kept = []

    def keep(v):
        """a parameter which the one it's given to leaves as it is"""
        kept.append((v, copy.deepcopy(v)))
        return v

    KEPT.append(kept)
    keep(recs)
    if fmt != "parquet" and not form["select"]:
        schema = False
    if j["kind"] == "batch":
        w = BatchWriter(inner_writer=mem_writer(store), dataset=name, format=fmt, schema=schema, partitions=SHARED["parts"][(form["parts"] or [None])[0]],
                        date="2024-02-29", blob_size=form["blob"], set_of_expectations=SHARED["expect"] if form["expect"] else None)
        yield
        for r in recs:
            w.append(r)
            yield
        w.finalize()
        done = [b for b in list(store.blobs) if b.startswith(root + "/") and b.endswith("frame.complete")]
        if len(done) != 1:
            return [[-1, [len(done)]]]
        # the blobs' names don't tell their order
        parts = sorted(numbers(fmt, v) for _, v in blobs_of(store, root))
        order = {r[0]: i for i, r in enumerate(j["rows"])}
        parts.sort(key=lambda p: order.get(p[0], -1) if p else -1)
        return [[0, [x for p in parts for x in p]]]
    if j["kind"] == "stream":
        w = StreamWriter(inner_writer=SHARED.setdefault("writer", mem_writer(store)) if form.get("same") else mem_writer(store), blob_size=form["blob"], dataset=name + "/{g}", format=fmt, schema=schema, partitions=None, date="2024-02-29")
        yield
        for r in recs:
            w.append(r)
            yield
        w.finalize()
        w.run_pool_attendant = False
        got, own = {}, {r[0] for r in j["rows"]}
        for path, v in blobs_of(store, root):
            g = int(path[len(name) + 1:].split("/")[0])
            ns = numbers(path.split(".")[-1], v)
            # others may write to the same folders, in blobs of their own and in their own form
            if form.get("same") and not own & set(ns):
                continue
            got.setdefault(g, []).append(ns if path.endswith("." + fmt) and (form["blob"] > 1 or fmt != "jsonl" or len(ns) == 1) else [-1])
        return [[g, [x for p in sorted(got[g]) for x in p]] for g in sorted(got)]
    if j["kind"] == "db":
        target = []

        class Inner(BaseDatabaseWriter):
            def commit(self, dataframe):
                target.extend(plain(r)["n"] for r in dataframe)

        w = DatabaseWriter(dataset="d", schema=schema or SHARED["list"], inner_writer=Inner, engine={}, batch_size=form["batch"])
        yield
        for r in recs:
            w.append(r)
            yield
        w.finalize()
        return [[0, target]]
    if j["kind"] in ("set", "sort", "group"):
        ds = DictSet(list(recs) if form["list"] else (r for r in recs))
        yield
        ds = ds.filter(lambda r: r["g"] != rem)
        yield
        if j["kind"] == "group":
            got, col = {}, "ngd"[j["c"] - 1]
            for r in ds.group_by(col).aggregate([("COUNT", "*"), ("SUM", "n")]):
                r = plain(r)
                yield
                got[r[col]] = [whole(r["COUNT(*)"]), whole(r["SUM(n)"])]
            return [[g, got[g]] for g in sorted(got)]
        if j["kind"] == "sort":
            ds = DictSet(ds.sort_and_take("n", k, True))
            yield
        else:
            ds = ds.take(k)
        out = []
        for r in ds:
            out.append(plain(r)["n"])
            yield
        return [[0, out]]
    if j["kind"] == "valid":
        # a null in the group is taken or not
        strict = [SCHEMA[0], {"name": "g", "type": "INTEGER", "nullable": rem == 9}, SCHEMA[2]]
        strict = keep({"list": strict, "fields": {"name": "shared", "fields": strict}, "columns": {"columns": strict}}.get(form["schema"], {"name": "shared", "columns": strict}))
        w = BatchWriter(inner_writer=mem_writer(store), dataset=name, format="jsonl", schema=strict, partitions=None, date="2024-02-29")
        taken = []
        yield
        for r in recs:
            try:
                w.append(dict(r, g=None) if r["g"] == (2 if rem == 9 else rem) else r)
                taken.append(r["n"])
            except Exception:
                pass
            yield
        w.finalize()
        return [[0, taken]]
    inner = mem_reader(store)
    days = {d: [rec(r, False) for r in j["rows"] if r[2] == d] for d in (1, 2, 3)}
    encode = lines
    if fmt == "parquet":
        def encode(rs):
            import io

            import pyarrow
            import pyarrow.parquet

            out = io.BytesIO()
            pyarrow.parquet.write_table(pyarrow.Table.from_pylist(rs), out)
            return out.getvalue()
    kw = dict(inner_reader=inner, dataset=name)
    if j["kind"] == "grow":
        # the newest complete frame, as they come
        got = []
        for d in (1, 2, 3):
            frame = f"{name}/2024/02/29/as_at_2024022{d}-100000"
            store.blobs[f"{frame}/x.{fmt}"] = encode(days[d])
            store.blobs[f"{frame}/frame.complete"] = b""
            yield
            out = []
            for r in Reader(partitions=SHARED["daily"], start_date="2024-02-29", end_date="2024-02-29", filters=keep([("g", "<>", rem)]), **kw):
                out.append(plain(r)["n"])
                yield
            got.append([d, out])
        return got
    if j["kind"] == "sql":
        for d in (1, 2, 3):
            store.blobs[f"{name}/{d}.jsonl"] = lines(days[d])
        out = []
        for r in SqlReader(f"SELECT n, g FROM {name.replace('/', '.') if form['dots'] else name} WHERE g <> {rem}", inner_reader=inner, partitions=None):
            r = plain(r)
            yield
            out.append(r["n"])
        return [[0, out]]
    for d in (1, 2, 3):
        store.blobs[f"{name}/2024/02/0{d}/x.{fmt}"] = encode(days[d])
    kw.update(partitions=SHARED["daily"], start_date=f"2024-02-0{j['a']}", end_date=f"2024-02-0{j['b']}")
    kw["filters"] = keep([("g", "<>", rem)]) if form["list"] else ("g", "<>", rem)
    if form["select"]:
        kw["select"] = "n, g"
    if j["kind"] == "read":
        out = []
        for r in Reader(**kw):
            out.append(plain(r)["n"])
            yield
        return [[0, out]]
    if j["kind"] == "resume":
        first, rest = [], []
        reader = Reader(**kw)
        for _ in range(k):
            try:
                first.append(plain(next(reader))["n"])
            except StopIteration:
                break
            yield
        cursor = reader.cursor
        if hasattr(cursor, "get") and not isinstance(cursor, dict):
            cursor = orjson.loads(orjson.dumps(cursor.get()))
        yield
        if len(first) == k:
            for r in Reader(cursor=keep(cursor), **kw):
                rest.append(plain(r)["n"])
                yield
        return [[0, first], [1, rest]]
    raise AssertionError(j["kind"])


def run(scn):
    given = begin()
    KEPT.clear()
    jobs = scn["jobs"]
    one = Mem()
    gens = [job(j, one if scn["store"] == "one" or j["form"].get("same") else Mem(), "b" if scn["store"] == "own" or j["form"].get("same") else f"b{i}", scn["share"]) for i, j in enumerate(jobs)]
    out, errs = [[] for _ in jobs], ["" for _ in jobs]
    over = [False for _ in jobs]

    def step(i):
        if over[i]:
            return
        try:
            next(gens[i])
        except StopIteration as e:
            over[i] = True
            out[i] = e.value
        except Exception as e:
            over[i] = True
            errs[i] = type(e).__name__
            if scn.get("debug"):
                raise

    if scn["how"] == "threads":
        before = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)

        def all_of(i):
            while not over[i]:
                step(i)

        ts = [threading.Thread(target=all_of, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(before)
    else:
        for i in scn["sched"]:
            step(i)
        rng = random.Random(scn["seed"])
        while not all(over):
            step(rng.choice([i for i in range(len(jobs)) if not over[i]]))
    kept = all(v == was for job_kept in KEPT for v, was in job_kept)
    return {"jobs": [{k: v for k, v in j.items() if k != "form"} for j in jobs]}, {"out": out, "errs": errs, "kept": int(kept and {k: SHARED[k] for k in given} == given)}
