"""
SQL statements on a table of jsonl blobs.

scenario: rows [{..}], blobs (how many), queries [{text, judge, avg [names]}]
"""
import orjson
from common import Mem, mem_reader
from sets import encv, fraction

from mabel.data.readers.internals.sql_reader import SqlReader


def run(scn):
    rows = scn["rows"]
    store = Mem()
    n = scn.get("blobs", 1)
    for i in range(n):
        store.blobs[f"b/d/{i}.jsonl"] = b"".join(orjson.dumps(r) + b"\n" for r in rows[i::n])
    answers = []
    for q in scn["queries"]:
        err, out = "", []
        try:
            for r in SqlReader(q["text"], inner_reader=mem_reader(store), partitions=None):
                r = r.as_dict() if hasattr(r, "as_dict") else r
                out.append(dict({k: fraction(v) if k in q["avg"] else encv(v) for k, v in r.items()}, _=[0]))
        except Exception as e:
            err = type(e).__name__
            if scn.get("debug"):
                raise
        answers.append({"err": err, "rows": out})
    return dict(rows=[dict({k: encv(v) for k, v in r.items()}, _=[0]) for r in rows], queries=[q["judge"] for q in scn["queries"]]), dict(answers=answers)
