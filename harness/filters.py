"""
Rows through a filter: by Reader, by DictSet.filter, and by the classes behind.

scenario: rows [{..}] (each gets an id 1..), filter (text, or DNF with tuples as {"$t": [..]}), ways, judge
"""
import copy

import common
import orjson
from common import Mem, mem_reader, unjson

from mabel import DictSet, Reader
from mabel.data.internals.dictset import STORAGE_CLASS


def tuples(v):
    if isinstance(v, dict) and list(v) == ["$t"]:
        return tuple(tuples(x) for x in v["$t"])
    if isinstance(v, list):
        return [tuples(x) for x in v]
    return unjson(v)


def run(scn):
    rows = [dict(unjson(r), id=i) for i, r in enumerate(scn["rows"], start=1)]
    flt = scn["filter"] if isinstance(scn["filter"], str) else tuples(scn["filter"])
    ways = []
    for way in scn["ways"]:
        err, ids = "", []
        before = copy.deepcopy(rows)
        try:
            if way == "reader":
                store = Mem()
                half = len(rows) // 2
                for n, part in enumerate((rows[:half], rows[half:])):
                    store.blobs[f"b/d/{n}.jsonl"] = b"".join(orjson.dumps(r) + b"\n" for r in part)
                got = list(Reader(inner_reader=mem_reader(store), dataset="b/d", partitions=None, filters=flt))
            elif way == "memory":
                got = list(DictSet(rows, storage_class=STORAGE_CLASS.MEMORY).filter(flt))
            else:
                got = list(DictSet(iter(rows)).filter(flt))
            for g in got:
                g = g.as_dict() if hasattr(g, "as_dict") else dict(g)
                ids.append(g["id"])
                if way != "reader" and g != rows[g["id"] - 1]:
                    err = "changed"
            if rows != before:
                err = "source changed"
        except Exception as e:
            err = type(e).__name__
        except BaseException as e:
            err = "base:" + type(e).__name__
        ways.append({"way": way, "err": err, "ids": ids})
    return scn["judge"], {"ways": ways}
