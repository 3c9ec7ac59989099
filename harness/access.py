"""
Reads of datasets which may or may not be allowed.

scenario: blobs [path], calls [{how: reader|sql, name, text (the statement), prefixes, kind (list|tuple|set)}]
"""
import common
from common import Mem, mem_reader

from mabel import Reader
from mabel.data.readers.internals.sql_reader import SqlReader


def run(scn):
    store = Mem()
    for i, b in enumerate(scn["blobs"], start=1):
        store.blobs[b] = b'{"id": %d}\n' % i
    answers = []
    for c in scn["calls"]:
        store.listed.clear()
        store.read.clear()
        err, ids = "", []
        kw = dict(inner_reader=mem_reader(store), partitions=None)
        if c["prefixes"]:
            kw["valid_dataset_prefixes"] = {"list": list, "tuple": tuple, "set": set}[c["kind"]](c["prefixes"])
        try:
            got = SqlReader(c["text"], **kw) if c["how"] == "sql" else Reader(dataset=c["name"], **kw)
            for r in got:
                r = r.as_dict() if hasattr(r, "as_dict") else r
                ids.append(r["id"])
        except Exception as e:
            err = type(e).__name__
        answers.append({"err": err, "ids": ids, "touched": len(store.listed) + len(store.read)})
    return dict(blobs=[common.cps(b) for b in scn["blobs"]],
                calls=[dict(how=c["how"], name=common.cps(c["name"]), prefixes=[common.cps(p) for p in c["prefixes"]]) for c in scn["calls"]]), dict(answers=answers)
