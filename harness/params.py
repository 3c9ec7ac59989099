"""
Calls of Reader with all kinds of parameters.

scenario: calls [{given {name: value}, more [names], needs [names], start, end (days, 0 today)}]
"""
import orjson
from common import Mem, mem_reader, unjson

from mabel import Reader
from mabel.data.readers.internals.sql_reader import SqlReader


def run(scn):
    answers, judged = [], []
    for c in scn["calls"]:
        store = Mem()
        for d in ("a/b", "a/b/year_2024"):
            store.blobs[d + "/0.jsonl"] = b'{"f": 1}\n'
        base = mem_reader(store)
        rules = [{"name": n, "required": True} for n in c["needs"]] + [{"name": n, "required": False} if c.get("full") else {"name": n} for n in c["more"] if n not in c["needs"]]
        cls = type("InnerReader", (base,), {"RULES": rules}) if rules or c.get("full") else base
        kw = {k: unjson(v) for k, v in c["given"].items()}
        if isinstance(kw.get("partition_filter"), list):
            kw["partition_filter"] = tuple(kw["partition_filter"])
        true = [k for k, v in kw.items() if v]
        err = ""
        try:
            if c.get("sql"):
                kw.pop("dataset", None)
                SqlReader("SELECT * FROM a.b", inner_reader=cls, **{k: v for k, v in kw.items()})
            else:
                Reader(inner_reader=cls, **kw)
        except Exception as e:
            err = type(e).__name__
            if scn.get("debug"):
                raise
        answers.append({"err": err, "touched": len(store.listed) + len(store.read)})
        judged.append(dict(given=list(c["given"]) + ["inner_reader"], true=true + ["inner_reader"], more=list(set(c["more"] + c["needs"])), needs=c["needs"], start=c["start"], end=c["end"]))
    return dict(calls=judged), dict(answers=answers)
