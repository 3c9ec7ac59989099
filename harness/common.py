"""
Shared by the drivers: quiet logging, a movable clock, in-memory storage which records
what is stored and can be made to fail, and encodings of values for the judges.

Everything the drivers see of mabel is through its public parameters: the inner writer
and inner reader classes which applications are meant to supply.
"""
import datetime as _dt
import decimal
import hashlib
import json
import logging
import math
import os
import sys
import tempfile

logging.disable(logging.CRITICAL + 1000)
logging.lastResort = None

REAL_DATETIME = _dt.datetime
REAL_DATE = _dt.date

_frozen = None


def start_clock(at="2024-02-28 10:00:00"):
    """one process wide movable clock, which keeps ticking"""
    global _frozen
    import freezegun

    if _frozen is None:
        # these can't be imported for the first time once the clock is replaced
        import pandas  # noqa: F401
        import pyarrow.parquet  # noqa: F401

        _frozen = freezegun.freeze_time(at, tick=True, tz_offset=float(os.environ.get("VERIF_TZ_OFFSET", "0")), ignore=["concurrent.futures", "multiprocessing"]).start()
    return _frozen


_clock_at, _clock_left = None, {}


def set_clock(at, begin=False):
    """
    the clock is put at a time, and ticks on. Put at a time it has been at before in a scenario, it goes on from where it
    had ticked to then (no moment is lived twice: stores name what they store after the moment)
    """
    global _clock_at
    clock = start_clock()
    if begin:
        _clock_left.clear()
    elif _clock_at is not None:
        _clock_left[_clock_at] = clock()
    clock.move_to(_clock_left.get(at, at))
    _clock_at = at


# ------------------------------------------------------------------ encodings
def canon(v):
    """an exact, type aware text for a value"""
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "b:1" if v else "b:0"
    if hasattr(v, "item") and type(v).__module__ == "numpy":
        v = v.item()
        return canon(v)
    if isinstance(v, int):
        return f"i:{v}"
    if isinstance(v, float):
        if math.isnan(v):
            return "f:nan"
        return f"f:{v!r}"
    if isinstance(v, decimal.Decimal):
        return f"d:{v}"
    if isinstance(v, str):
        return "s:" + json.dumps(v)
    if isinstance(v, (bytes, bytearray)):
        return "y:" + bytes(v).hex()
    if isinstance(v, _dt.datetime) or isinstance(v, REAL_DATETIME):
        return "t:" + v.isoformat()
    if isinstance(v, _dt.date) or isinstance(v, REAL_DATE):
        return "D:" + v.isoformat()
    if isinstance(v, dict):
        return "{" + ",".join(sorted(json.dumps(str(k)) + "=" + canon(x) for k, x in v.items())) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if hasattr(v, "as_dict"):
        return canon(v.as_dict() if callable(v.as_dict) else v.as_dict)
    return f"?{type(v).__name__}:{v!r}"


def token(v):
    """a short text identifying a value (equal values, and only those, have equal tokens)"""
    return "h" + hashlib.sha1(canon(v).encode("utf8", "surrogatepass")).hexdigest()[:12]


def cps(s):
    """text as code points"""
    return [ord(c) for c in s]


def enc(v):
    """
    A value as a sequence of integers, so that TLC can compare any two of them:
    <<0>> null, <<1, b>> boolean, <<2, hi, lo>> whole or fractional number in 1/1000ths,
    <<3, code points>> text, <<4, y, m, d, h, mi, s>> date time, <<5, d, mo, y>> date,
    <<9, ...>> anything else
    """
    if v is None:
        return [0]
    if isinstance(v, bool):
        return [1, 1 if v else 0]
    if isinstance(v, (int, float, decimal.Decimal)):
        try:
            x = round(v * 1000)
            if abs(float(x) / 1000 - float(v)) < 1e-9 and abs(x) < 2**31:
                return [2, int(x)]
        except (ValueError, OverflowError, decimal.InvalidOperation):
            pass
        return [9] + cps(repr(v))
    if isinstance(v, str):
        return [3] + cps(v)
    if isinstance(v, (_dt.datetime, REAL_DATETIME)):
        return [4, v.year, v.month, v.day, v.hour, v.minute, v.second]
    if isinstance(v, (_dt.date, REAL_DATE)):
        return [5, v.year, v.month, v.day]
    return [9] + cps(canon(v))


def unjson(v):
    """{"$dt": iso}, {"$d": iso}, {"$b": hex} in scenarios stand for what JSON doesn't have"""
    if isinstance(v, dict):
        if len(v) == 1:
            if "$dt" in v:
                return _dt.datetime.fromisoformat(v["$dt"])
            if "$d" in v:
                return _dt.date.fromisoformat(v["$d"])
            if "$b" in v:
                return bytes.fromhex(v["$b"])
            if "$dec" in v:
                return decimal.Decimal(v["$dec"])
            if "$set" in v:
                return set(v["$set"])
            if "$f" in v:
                return float(v["$f"])
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v


def as_model(rec):
    """the record as a pydantic model, if its names allow that"""
    from pydantic import BaseModel, create_model

    if not isinstance(rec, dict) or not all(
        isinstance(k, str) and k.isascii() and k.isidentifier() and k[0] != "_" and not hasattr(BaseModel, k) for k in rec
    ):
        return rec
    key = tuple(rec)
    if key not in _models:
        _models[key] = create_model("Record", **{k: (object, ...) for k in key})
    return _models[key].model_construct(**rec)


_models = {}


# ------------------------------------------------------------------ storage
class StoreFailure(Exception):
    """raised by the storage stand-ins"""


class Mem:
    """an object store in memory"""

    def __init__(self):
        self.blobs = {}
        self.listed = []
        self.read = []
        self.unreadable = set()

    def listing(self, path):
        path = str(path)
        self.listed.append(path)
        pre = path.rstrip("/") + "/"
        names = [n for n in list(self.blobs) if n.startswith(pre)]
        # stores don't promise any order
        return sorted(names, key=lambda n: hashlib.sha1(n.encode("utf8", "surrogatepass")).digest())

    def get(self, name):
        self.read.append(name)
        if name in self.unreadable:
            raise StoreFailure("unreadable " + name)
        return self.blobs[name]


def mem_reader(store):
    from mabel.data.readers.internals.base_inner_reader import BaseInnerReader

    class MemReader(BaseInnerReader):
        def get_blobs_at_path(self, path):
            return store.listing(path)

        def get_blob_bytes(self, blob):
            return store.get(blob)

    return MemReader


def mem_writer(store, before=None, after=None):
    """
    An inner writer which stores in memory. before(path, data, is_named) may raise (nothing is
    stored then); after(path, data, is_named) is told of what was stored.
    """
    from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter

    class MemWriter(BaseInnerWriter):
        def commit(self, byte_data, override_blob_name=None):
            name = override_blob_name or self._build_path()
            if before:
                before(name, bytes(byte_data), bool(override_blob_name))
            store.blobs[name] = bytes(byte_data)
            if after:
                after(name, bytes(byte_data), bool(override_blob_name))
            return name

    return MemWriter


def disk_writer(before=None, after=None):
    from mabel.adapters.disk import DiskWriter

    class SpyDiskWriter(DiskWriter):
        def commit(self, byte_data, override_blob_name=None):
            data = bytes(byte_data)
            if before:
                before(override_blob_name or "?", data, bool(override_blob_name))
            name = super().commit(byte_data, override_blob_name)
            if after:
                after(name, data, bool(override_blob_name))
            return name

    return SpyDiskWriter


# ------------------------------------------------------------------ independent decoding
def decode(fmt, data):
    """the records in a blob, decoded without mabel; returns (records, lines with newline)"""
    if fmt == "parquet":
        import io

        import pyarrow.parquet as pq

        return pq.read_table(io.BytesIO(data)).to_pylist(), None
    if fmt == "zstd":
        import zstandard

        data = zstandard.decompress(data)
    parts = data.split(b"\n")
    if parts[-1] != b"":
        return [{"$unterminated": parts[-1].hex()}], None
    parts = parts[:-1]
    if fmt == "text":
        return [p.decode("utf8") for p in parts], [len(p) + 1 for p in parts]
    return [json.loads(p) for p in parts], [len(p) + 1 for p in parts]


def scratch_dir(prefix="s-"):
    return tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("VERIF_SCRATCH") or None)
