"""
Interrupted reads.

scenario: objects [{path, recs, vs | raw | broken}] (in name order), kw (of the Reader),
          hops [{seen, n, form}]: the number of objects there when the reader is opened, how
          many records to take (-1: to the end), how the cursor is passed on
"""
import json
import os
import shutil

import common
from common import Mem, mem_reader, unjson

from mabel import Reader
from mabel.adapters.disk import DiskReader


def content(o):
    if "raw" in o:
        return o["raw"].encode()
    recs = [{"id": i, "v": v, "name": f"n{v}"} for i, v in zip(o["recs"], o["vs"])]
    ext = o["path"].rsplit(".", 1)[-1]
    if ext == "parquet":
        import io

        import pyarrow
        import pyarrow.parquet

        f = io.BytesIO()
        pyarrow.parquet.write_table(pyarrow.table({
            "id": pyarrow.array([r["id"] for r in recs], pyarrow.int64()), "v": pyarrow.array([r["v"] for r in recs], pyarrow.int64()),
            "name": pyarrow.array([r["name"] for r in recs], pyarrow.string())}), f)
        return f.getvalue()
    data = b"".join(json.dumps(r).encode() + b"\n" for r in recs)
    if ext == "zstd":
        import zstandard

        return zstandard.compress(data)
    return data


def kwargs(scn):
    kw = {k: unjson(v) for k, v in scn["kw"].items()}
    f = kw.get("filters")
    if isinstance(f, list):
        kw["filters"] = tuple(f) if f and isinstance(f[0], str) else [tuple(x) for x in f]
    return kw


def ident(rec):
    rec = rec.as_dict() if hasattr(rec, "as_dict") else rec
    return rec["id"] if isinstance(rec, dict) and "id" in rec else -1


def run(scn):
    root = common.scratch_dir() if scn["backend"] == "disk" else None
    if root:
        os.chdir(root)
    try:
        store = Mem()
        inner = DiskReader if root else mem_reader(store)
        placed = 0

        def place(n):
            nonlocal placed
            for o in scn["objects"][placed:n]:
                if root:
                    os.makedirs(os.path.dirname(o["path"]), exist_ok=True)
                    with open(o["path"], "wb") as f:
                        f.write(content(o))
                else:
                    store.blobs[o["path"]] = content(o)
                    if o.get("broken"):
                        store.unreadable.add(o["path"])
            placed = max(placed, n)

        cursor, chunks, err = None, [], ""
        for hop in scn["hops"]:
            place(hop["seen"])
            kw = kwargs(scn)
            if cursor is not None or hop.get("form") == "none":
                kw["cursor"] = cursor
            got = []
            chunks.append(got)
            try:
                reader = Reader(inner_reader=inner, **kw)
                while hop["n"] < 0 or len(got) < hop["n"]:
                    got.append(ident(next(reader)))
            except StopIteration:
                pass
            except Exception as e:
                err = type(e).__name__
                break
            c = reader.cursor
            form = hop.get("form")
            if hasattr(c, "get") and not isinstance(c, dict):
                if form == "json":
                    c = str(c)
                elif form == "dumps":
                    c = json.dumps(c.get())
                elif form == "map":
                    c = {"location": c["location"], "partition": c["partition"], "map": c["map"]}
                elif form == "object":
                    pass
                else:
                    c = json.loads(json.dumps(c.get()))
            cursor = c
            del reader
        place(len(scn["objects"]))
        full = []
        try:
            for r in Reader(inner_reader=inner, **kwargs(scn)):
                full.append(ident(r))
        except Exception as e:
            err = err or "full:" + type(e).__name__
        return scn["judge"], {"chunks": chunks, "full": full, "err": err}
    finally:
        if root:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)
