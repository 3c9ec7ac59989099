"""
Reads of files in many formats.

scenario: files [{name, fmt (of the content), recs, form (how it's laid out), damage, n}], override,
          members of zip files are files themselves; backend mem | disk
"""
import csv
import io
import json
import lzma
import os
import random
import shutil
import zipfile
from xml.sax.saxutils import escape

import common
from common import Mem, mem_reader, token, unjson

from mabel import Reader
from mabel.adapters.disk import DiskReader

DATA = {"jsonl", "zstd", "lzma", "parquet", "csv", "json", "txt", "zip", "xml", "lxml"}
CONTROL = {"complete", "ignore", "manifest", "idx"}


class Odd(OSError):
    pass


def units(f, recs):
    """the lines of a file"""
    form = f.get("form", {})
    if f["fmt"] == "csv":
        cols = form["cols"]
        out = io.StringIO()
        w = csv.writer(out, lineterminator="\r\n" if form.get("crlf") else "\n", quoting=csv.QUOTE_ALL if form.get("quote") else csv.QUOTE_MINIMAL)
        w.writerow(cols)
        for r in recs:
            w.writerow([r[c] for c in cols])
        text = out.getvalue()
        return text[:-1] if form.get("open") and recs and not text.endswith('\r\n') else text
    rng = random.Random(len(recs))
    lines = []
    for r in recs:
        s = json.dumps(r, ensure_ascii=bool(form.get("ascii")), separators=(",", ":") if form.get("tight") else None)
        if form.get("space"):
            s = rng.choice(["", " ", "\t"]) + s + rng.choice(["", "  "])
        lines.append(s.encode())
    return lines


def lined(f, lines):
    form = f.get("form", {})
    end = b"\r\n" if form.get("crlf") else b"\n"
    return end.join(lines) + (b"" if form.get("open") or not lines else end)


def squeeze(f, data):
    form = f.get("form", {})
    cuts = sorted(random.Random(len(data)).sample(range(len(data) + 1), min(form.get("frames", 1) - 1, len(data))))
    parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    if f["fmt"] == "zstd":
        import zstandard

        return b"".join(zstandard.ZstdCompressor(level=form.get("level", 3), write_content_size=not form.get("nosize"), write_checksum=f.get("damage") == "flip").compress(p) for p in parts)
    return b"".join(lzma.compress(p) for p in parts)


def broken(f):
    return bool(f.get("damage")) or any(broken(m) for m in f.get("members", []) if m.get("name", "").split(".")[-1] in DATA and not m.get("dir"))


def encode(f):
    """(bytes, records, fewest, most) of a file"""
    fmt, damage, n = f["fmt"], f.get("damage", ""), f.get("n", 0)
    form = f.get("form", {})
    recs = [unjson(r) for r in f.get("recs", [])]
    k = len(recs)
    lo = hi = k
    if fmt in ("jsonl", "zstd", "lzma"):
        lines = units(f, recs)
        if damage == "bad":
            lines = lines[:n] + [form.get("junk", "{nonsense").encode("latin1")] + lines[n:]
            lo = hi = n
        data = lined(f, lines)
        if damage == "cut" and fmt == "jsonl":
            data = lined(f, lines[:n]) if not form.get("open") else b"\n".join(lines[:n] + [b""])
            data += lines[n][: max(1, len(lines[n].strip()) // 2)]
            lo = hi = n
        if fmt != "jsonl":
            data = squeeze(f, data)
            if damage == "cut":
                data = data[: len(data) * (n + 1) // (k + 2)]
                lo, hi = 0, k
            elif damage == "flip":
                i = len(data) * (n + 1) // (k + 2)
                data = data[:i] + bytes([data[i] ^ 0xFF]) + data[i + 1:]
                lo, hi = 0, k
    elif fmt in ("xml", "lxml"):
        recs = recs[:1] if fmt == "xml" else recs
        lo = hi = k = len(recs)
        docs = [("<r>" + "".join(f"<{a}>{escape(b)}</{a}>" for a, b in r["r"].items()) + "</r>").encode() for r in recs]
        if damage == "bad":
            n = min(n, k) if fmt == "lxml" else 0
            docs = docs[:n] + [b"<r><v>1</v>"] + docs[n:] if fmt == "lxml" else [docs[0][:-4]]
            lo = hi = n
        data = lined(f, docs)
    elif fmt == "csv":
        data = units(f, recs).encode("utf8")
        if damage:
            data = b"\xff\xfe\xff" + data
            lo = hi = 0
    elif fmt == "json":
        recs = recs[:1] or [{}]
        lo = hi = 1
        data = json.dumps(recs[0], indent=form.get("indent")).encode()
        if damage:
            data, lo, hi = data[: len(data) // 2] + b"\x00", 0, 0
    elif fmt == "txt":
        data = form.get("text", "").encode("utf8")
        recs, lo, hi = [data], 1, 1
    elif fmt == "parquet":
        import pyarrow
        import pyarrow.parquet

        table = pyarrow.Table.from_pylist(recs)
        out = io.BytesIO()
        pyarrow.parquet.write_table(table, out, row_group_size=form.get("group", 1000), compression=form.get("codec", "snappy"))
        data = out.getvalue()
        if damage:
            data, lo, hi = data[: len(data) * 2 // 3], 0, 0
    elif fmt == "zip":
        out = io.BytesIO()
        recs, lo, hi, open_ = [], 0, 0, True
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED if form.get("deflate") else zipfile.ZIP_STORED) as z:
            for m in f["members"]:
                if m.get("dir"):
                    z.writestr(m["name"] + "/", b"")
                    continue
                d, r, a, b = encode(m)
                z.writestr(m["name"], d)
                if m["name"].split(".")[-1] not in DATA or not open_:
                    continue
                recs += r if b == len(r) else r[:b]
                lo += a
                hi += b
                open_ = not broken(m)  # what's after the damage of a member isn't told
        data = out.getvalue()
        if damage:
            data, lo, hi = data[: len(data) // 2], 0, 0
    else:
        data, recs, lo, hi = b"anything", [], 0, 0
    if damage == "empty":
        data, lo, hi = b"", 0, 0
    return data, recs, lo, hi


FAILS = {"store": common.StoreFailure, "os": OSError, "key": KeyError, "time": TimeoutError, "value": ValueError, "odd": Odd, "stop": RuntimeError}


def reader_for(store, failing):
    base = mem_reader(store)

    class Failing(base):
        def get_blob_bytes(self, blob):
            if blob in failing:
                raise FAILS[failing[blob]]("can't be fetched")
            return store.get(blob)

    return Failing


def run(scn):
    root = common.scratch_dir() if scn["backend"] == "disk" else None
    if root:
        os.chdir(root)
    try:
        store, failing, files = Mem(), {}, []
        some = False
        for f in sorted(scn["files"], key=lambda x: x["name"]):
            path = "b/data/2024/02/29/" + f["name"]
            data, recs, lo, hi = encode(f)
            if f.get("damage") == "fetch":
                failing[path] = f["exc"]
                lo = hi = 0
            ext = f["name"].split(".")[-1]
            if ext not in DATA:
                recs, lo, hi = [], 0, 0
            else:
                some = True
            files.append(dict(recs=[token(r) for r in recs], min=lo, max=hi))
            if root:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as out:
                    out.write(data)
            store.blobs[path] = data
        kw = dict(dataset="b/data", partitions=["{yyyy}/{mm}/{dd}"], start_date="2024-02-29", end_date="2024-02-29")
        if scn.get("override"):
            kw["override_format"] = scn["override"]
        got, err = [], ""
        try:
            for rec in Reader(inner_reader=DiskReader if root else reader_for(store, failing), **kw):
                got.append(token(rec.as_dict() if hasattr(rec, "as_dict") else rec))
        except Exception as e:
            err = type(e).__name__
        return {"files": files, "some": some}, {"recs": got, "err": err}
    finally:
        if root:
            os.chdir("/")
            shutil.rmtree(root, ignore_errors=True)
