"""
Sessions of one or more writers, against storage which records and can fail.

scenario:
  backend   "mem" | "disk" | "gcs" | "minio"
  writers   [{kind: plain|batch, fmt, blob_size, dataset, date, partitions, schema, expectations,
              frame_id, always, ds, frame, sized, form: the form the schema is given in}]
  ops       [{w, op: new}, {w, op: app, rec | len, valid, d}, {w, op: fin, f, d, m}]
            (writers are created at their "new", or at the start)
            model: the record is given as a pydantic model
            d: storing data fails during this call; m: storing the marker does
            t: what happens to the attempts to store during this call (gcs), in order, as
               [kind of error or "ok", was it stored all the same]
  reads     [{ds, dataset, start, end, partitions}]
"""
import datetime
import json
import os
import shutil

import cloud
import common
from common import Mem, StoreFailure, canon, decode, disk_writer, mem_reader, mem_writer, token, unjson

from mabel import Reader
from mabel.adapters.disk import DiskReader
from mabel.data import BatchWriter
from mabel.data import Writer
from mabel.errors import DataNotFoundError


def jsonable(v):
    if isinstance(v, (datetime.datetime, datetime.date)):
        return v.isoformat()
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v


def flat(v, pre=None):
    out = {}
    for k, x in v.items():
        name = k if pre is None else pre + "." + k
        if isinstance(x, dict):
            out.update(flat(x, name))
        elif isinstance(x, list):
            out.update(flat({str(i): y for i, y in enumerate(x)}, name))
        else:
            out[name] = x
    return out


def expected(fmt, rec, schema):
    """the stored form of a record"""
    if fmt == "text":
        return rec.decode("utf8") if isinstance(rec, bytes) else str(rec)
    if fmt == "parquet":
        return {c["name"]: rec.get(c["name"]) for c in schema}
    if fmt == "flat":
        return jsonable(flat(rec))
    return jsonable(rec)


def sized(fmt, n, i):
    """a record with a stored form of exactly n bytes, newline included"""
    if fmt == "text":
        s = f"{i}:"
        return s + "x" * (n - 1 - len(s))
    base = {"i": i, "p": ""}
    return {"i": i, "p": "x" * (n - 1 - len(json.dumps(base, separators=(",", ":"))))}


TYPES = {str: "VARCHAR", int: "INTEGER", float: "DOUBLE", bool: "BOOLEAN", list: "ARRAY", type(None): "NULL",
         datetime.datetime: "TIMESTAMP", bytes: "BLOB", dict: "STRUCT", datetime.date: "DATE", set: "SET"}


def described(rec):
    """the fields of a record, for the judge of schemas"""
    return [dict(n=k, ty=TYPES.get(type(v), "OTHER"), tok=token(v),
                 num=v if isinstance(v, int) and abs(v) < 2**31 else 0, len=len(v) if hasattr(v, "__len__") else 0)
            for k, v in rec.items()]


def given(cols, form, scratch):
    """a schema, in one of the forms which writers take"""
    if cols is False:
        return False
    cols = [c if c["type"] != "ANY" else c["name"] if c["nullable"] else {"name": c["name"], "nullable": False} for c in cols]
    if form == "columns":
        return {"columns": cols}
    if form == "fields":
        return {"fields": cols, "name": "data"}
    if form == "text":
        return json.dumps(cols)
    if form == "long":
        return json.dumps({"fields": cols}, indent=1)
    if form == "file":
        if not scratch:
            scratch.append(common.scratch_dir())
        path = os.path.join(scratch[0], "schema.json")
        with open(path, "w") as f:
            json.dump({"name": "data", "columns": cols}, f)
        return path
    if form == "object":
        from orso.schema import RelationSchema

        return RelationSchema.from_dict({"name": "data", "columns": cols})
    return cols


def run(scn):
    store = Mem()
    root = None
    scratch = []
    if scn["backend"] == "disk":
        root = common.scratch_dir()
    try:
        return _run(scn, store, root, scratch)
    finally:
        for d in scratch:
            shutil.rmtree(d, ignore_errors=True)
        if root:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)


def _run(scn, store, root, scratch):
    if root:
        os.chdir(root)
    events = []
    faults = {"d": False, "m": False, "t": []}
    attempts = []  # to store, with the cloud adapters
    made = {}
    tries = {}
    away = scn["backend"] in ("gcs", "minio")
    service = cloud.begin() if away else None

    def make(i):
        w = scn["writers"][i]
        fmt = w["fmt"]

        def before(name, data, named):
            if faults.get("over"):
                raise StoreFailure("the session is over")
            while faults["t"] and not away:
                out = faults["t"].pop(0)[0]
                if out == "ok":
                    break
                if out not in cloud.TRANSIENT:
                    events.append({"e": "fail", "w": i + 1})
                    raise cloud.error(out)
            if faults["m" if named else "d"]:
                events.append({"e": "fail", "w": i + 1})
                raise StoreFailure("the store is down")

        def after(name, data, named):
            folder, base = os.path.split(name)
            if named:
                ok = base == "frame.complete"
                events.append({"e": "mark" if ok else "odd", "w": i + 1, "folder": folder})
                return
            recs, lens = decode(fmt, data)
            events.append({"e": "put", "w": i + 1, "recs": [token(r) for r in recs],
                           "lens": lens if lens is not None else [0], "folder": folder, "ext": base[base.find("."):]})

        def attempt(path, data, put):
            named = os.path.basename(path).startswith("frame.")
            out, kept = faults["t"].pop(0) if faults["t"] else ("ok", 1)
            while scn["backend"] == "minio" and out in cloud.TRANSIENT:
                out, kept = faults["t"].pop(0) if faults["t"] else ("ok", 1)
            note = {"e": "try", "name": token(path), "data": token(data), "out": "fatal"}
            attempts.append(note)
            before(path, data, named)
            if out == "ok":
                put()
                note["out"] = "ok"
                after(path, data, named)
                return
            if kept:
                put()
            if out in cloud.TRANSIENT:
                note["out"] = "trans"
            else:
                events.append({"e": "fail", "w": i + 1})
            raise cloud.error(out)

        if away:
            inner, more = cloud.writer_class(scn["backend"])
            service.attempt = None
            tries[i] = attempt
        else:
            inner, more = disk_writer(before, after) if root else mem_writer(store, before, after), {}
        kw = dict(more, inner_writer=inner, dataset=w["dataset"], format=fmt, schema=given(unjson(w.get("schema", False)), w.get("form", "list"), scratch),
                  date=unjson(w.get("date")), partitions=w["partitions"])
        if w.get("blob_size"):
            kw["blob_size"] = w["blob_size"]
        if w.get("expectations"):

            kw["set_of_expectations"] = [{k: v for k, v in x.items() if k != "k"} for x in w["expectations"]]
        if w["kind"] == "batch":
            kw["always_complete"] = bool(w.get("always"))
            if w.get("frame_id"):
                kw["frame_id"] = w["frame_id"]
            made[i] = BatchWriter(**kw)
        else:
            made[i] = Writer(**kw)

    clock = scn.get("clock")
    if clock:
        common.set_clock(clock, True)
    lazy = any(o["op"] == "new" for o in scn["ops"])
    if not lazy:
        for i in range(len(scn["writers"])):
            make(i)
    for n, op in enumerate(scn["ops"]):
        i = op["w"]
        if op["op"] == "clock":
            common.set_clock(op["at"])
            continue
        if op["op"] == "new":
            make(i)
            continue
        w = scn["writers"][i]
        faults["d"], faults["m"], faults["t"] = bool(op.get("d")), bool(op.get("m")), list(op.get("t", []))
        if away:
            service.attempt = tries[i]
            attempts.append({"e": "call", "op": op["op"]})
        if op["op"] == "app":
            valid = bool(op.get("valid", 1))
            if "len" in op:
                rec = sized(w["fmt"], op["len"], n) if valid else {"nonsense": n}
            else:
                rec = unjson(op["rec"])
            tok = token(expected(w["fmt"], rec, w.get("schema"))) if valid or scn.get("rows") else "invalid"
            keep = canon(rec)
            events.append({"e": "app", "w": i + 1, "t": tok, "valid": valid})
            if scn.get("rows"):
                events[-1]["row"] = described(rec)
            try:
                made[i].append(common.as_model(rec) if op.get("model") else rec)
                ok = True
            except Exception:
                ok = False
            if canon(rec) != keep:
                events.append({"e": "changed", "w": i + 1})
            events.append({"e": "ret", "w": i + 1, "ok": ok})
        else:
            events.append({"e": "fin", "w": i + 1, "failure": bool(op.get("f"))})
            try:
                if w["kind"] == "batch" and op.get("f") is not None and (op["f"] or op.get("explicit")):
                    made[i].finalize(has_failure=bool(op["f"]))
                else:
                    made[i].finalize()
                ok = True
            except Exception:
                ok = False
            events.append({"e": "fret", "w": i + 1, "ok": ok})
        faults["d"] = faults["m"] = False
        if away:
            attempts.append({"e": "ret", "ok": ok})
    reads = []
    for r in scn.get("reads", []):
        kw = dict(dataset=r["dataset"], partitions=r["partitions"])
        if r.get("start") is not None:
            kw.update(start_date=unjson(r["start"]), end_date=unjson(r["end"]))
        got = []
        try:
            if away:
                inner, more = cloud.reader_class(scn["backend"])
                reader = Reader(inner_reader=inner, **more, **kw)
            else:
                reader = Reader(inner_reader=DiskReader if root else mem_reader(store), **kw)
            for rec in reader:
                got.append(token(rec.as_dict() if hasattr(rec, "as_dict") else rec))
        except DataNotFoundError:
            pass
        reads.append({"ds": r["ds"], "recs": got})
    events = list(events)
    kept = list(service.objects) if away else []
    faults["over"] = True  # writers which were abandoned may still commit when they are collected
    made.clear()
    cfgs = [dict(batch=w["kind"] == "batch", always=bool(w.get("always")), limit=w.get("blob_size") or 65011712,
                 sized=bool(w.get("sized")), ds=w.get("ds", "d"), frame=w.get("frame", 0)) for w in scn["writers"]]
    if scn.get("rows"):
        for cfg, w in zip(cfgs, scn["writers"]):
            cfg["schema"] = bool(w["schema"])
            cfg["cols"] = [dict(n=c["name"], ty=c["type"], nul=c.get("nullable", True)) for c in w["schema"] or []]
            cfg["exps"] = [dict(k=e["k"], col=e["column"], toks=[token(t) for t in e.get("symbols", [])],
                                lo=e.get("minimum", 0), hi=e.get("maximum", 0)) for e in w.get("expectations", [])]
    obs = {"ev": events, "reads": reads}
    if away:
        obs["attempts"] = attempts
        obs["stored"] = sorted(token("/".join(k)) for k in kept)
    return {"cfgs": cfgs}, obs
