"""
Reads a layout of objects.

scenario: objects [{path, recs: [ids], fmt | raw}], backend, reader {dataset, partitions, ...},
clock (optional); anything in "judge" is passed to the judge.
"""
import io
import json
import os
import shutil

import cloud
import common
from common import Mem, mem_reader, unjson

from mabel import Reader
from mabel.adapters.disk import DiskReader


def content(o):
    if "raw" in o:
        return o["raw"].encode()
    recs = [{"id": i, "f": "x"} for i in o["recs"]]
    ext = o["path"].rsplit(".", 1)[-1]
    if ext == "parquet":
        import pyarrow
        import pyarrow.parquet

        f = io.BytesIO()
        pyarrow.parquet.write_table(pyarrow.table({"id": pyarrow.array(o["recs"], pyarrow.int64()), "f": pyarrow.array(["x"] * len(recs), pyarrow.string())}), f)
        return f.getvalue()
    data = b"".join(json.dumps(r).encode() + b"\n" for r in recs)
    if ext == "zstd":
        import zstandard

        return zstandard.compress(data)
    return data


def read(reader):
    got, err = [], ""
    try:
        for rec in reader:
            rec = rec.as_dict() if hasattr(rec, "as_dict") else rec
            got.append(rec["id"] if isinstance(rec, dict) and "id" in rec else -1)
    except Exception as e:
        err = type(e).__name__
    return got, err


def run(scn):
    root = common.scratch_dir() if scn["backend"] == "disk" else None
    if root:
        os.chdir(root)
    try:
        if scn.get("clock"):
            common.set_clock(scn["clock"], True)
        store = Mem()
        for o in scn["objects"]:
            if root:
                os.makedirs(os.path.dirname(o["path"]), exist_ok=True)
                with open(o["path"], "wb") as f:
                    f.write(content(o))
            else:
                store.blobs[o["path"]] = content(o)
        kw = {k: unjson(v) for k, v in scn["reader"].items()}
        if kw.get("partition_filter"):
            kw["partition_filter"] = tuple(kw["partition_filter"])
        inner, more = DiskReader if root else mem_reader(store), {}
        if scn["backend"] in ("gcs", "minio"):
            cloud.begin(store.blobs)
            inner, more = cloud.reader_class(scn["backend"])
        try:
            reader = Reader(inner_reader=inner, **more, **kw)
        except Exception as e:
            return scn["judge"], {"recs": [], "err": "init:" + type(e).__name__}
        got, err = read(reader)
        return scn["judge"], {"recs": got, "err": err}
    finally:
        if root:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)
