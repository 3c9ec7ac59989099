"""
Routing of records by a StreamWriter.

scenario: dataset, partitions, fmt, schema, blob_size, date (json or null), recs [{r, at (clock, or null)}],
readback {dataset, start, end} or null; judge: what the judge sees
"""
import os

import common
from common import Mem, cps, decode, mem_reader, mem_writer, unjson

from mabel import Reader
from mabel.data import StreamWriter
from mabel.errors import DataNotFoundError


def run(scn):
    if scn["clock"]:
        common.set_clock(scn["clock"], True)
    store = Mem()
    puts = []

    def after(name, data, named):
        fmt = "parquet" if name.endswith(".parquet") else "zstd" if name.endswith(".zstd") else "jsonl"
        puts.append({"p": cps(os.path.dirname(name)), "recs": [r.get("id", -1) for r in decode(fmt, data)[0]]})

    kw = dict(dataset=scn["dataset"], partitions=scn["partitions"], format=scn["fmt"], inner_writer=mem_writer(store, None, after), idle_timeout_seconds=10**6, writer_pool_capacity=1000)
    kw["schema"] = scn["schema"] or False
    if scn["blob_size"]:
        kw["blob_size"] = scn["blob_size"]
    if scn["date"]:
        kw["date"] = unjson(scn["date"])
    err, read = "", []
    w = StreamWriter(**kw)
    try:
        for rec in scn["recs"]:
            if rec["at"]:
                common.set_clock(rec["at"])
            w.append(unjson(rec["r"]))
        w.finalize()
    except Exception as e:
        err = type(e).__name__
    w.run_pool_attendant = False
    if scn.get("readback"):
        rb = {k: unjson(v) for k, v in scn["readback"].items()}
        try:
            read = [dict(r).get("id", -1) for r in Reader(inner_reader=mem_reader(store), **rb)]
        except DataNotFoundError:
            read = []
    return scn["judge"], {"puts": puts, "err": err, "read": read}
