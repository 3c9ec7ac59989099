"""The blobs of the reads with several processes"""
import gc

from common import Mem, canon, token, unjson  # noqa: F401

import io
import json


def content(fmt, recs):
    if fmt == "parquet":
        import pyarrow
        import pyarrow.parquet

        f = io.BytesIO()
        pyarrow.parquet.write_table(pyarrow.Table.from_pylist(recs), f)
        return f.getvalue()
    data = b"".join(json.dumps(r, ensure_ascii=False).encode() + b"\n" for r in recs)
    if fmt == "jsonl.zstd":
        import zstandard

        return zstandard.compress(data)
    return data


def build(b):
    """the content of a blob and the records which can be read from it"""
    recs = b["recs"]
    data = content(b["fmt"], recs)
    if b.get("bad") == "unreadable":
        return data, []
    if b.get("bad") == "garbage":
        return b"\x00garbage" + data[7:], []
    if b.get("bad") == "cut":  # jsonl only: cut within the record n
        lines = data.split(b"\n")
        n = b["n"]
        return b"\n".join(lines[:n] + [lines[n][: len(lines[n]) // 2]]) , recs[:n]
    if b.get("bad") == "middle":
        lines = data.split(b"\n")
        n = b["n"]
        return b"\n".join(lines[:n] + [b"{nonsense"] + lines[n:]), recs[:n]
    return data, recs


def prepare(scn):
    store = Mem()
    expected = []
    f = scn.get("filter")
    for i, b in enumerate(scn["blobs"]):
        name = f"b/data/2024/02/29/{i:04d}.{b['fmt']}"
        data, recs = build(b)
        store.blobs[name] = data
        if b.get("bad") == "unreadable":
            store.unreadable.add(name)
        expected.append([token(r) for r in recs if f is None or r.get("g") == f])
    kw = dict(dataset="b/data", partitions=["{yyyy}/{mm}/{dd}"], start_date="2024-02-29", end_date="2024-02-29")
    if f is not None:
        kw["filters"] = scn["form"] if isinstance(scn["form"], str) else [tuple(scn["form"])]
    return store, expected, kw


def collect(make, stop, pause=None):
    """the records a consumer takes, and the error it meets"""
    got, err = [], ""
    reader = it = None
    try:
        reader = make()
        it = iter(reader)
        while stop < 0 or len(got) < stop:
            try:
                rec = next(it)
            except StopIteration:
                break
            got.append(token(rec.as_dict() if hasattr(rec, "as_dict") else rec))
            if pause:
                pause()
    except Exception as e:
        err = type(e).__name__
    finally:
        del it, reader
        gc.collect()
    return got, err
