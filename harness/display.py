"""
Tables of records.

scenario: kind html | ascii, recs (lists of [name, value]), limit, via list | gen | dictset
"""
from common import cps, unjson

from mabel import DictSet
from mabel.data.internals.display import ascii_table, html_table


def shown(v):
    if isinstance(v, (list, tuple, set)):
        return {"k": "l", "l": [shown(x) for x in v]}
    if isinstance(v, dict):
        return {"k": "d", "d": [[cps(str(k)), cps(str(x))] for k, x in v.items()]}
    return {"k": "t", "t": cps(str(v))}


def run(scn):
    recs = [{k: unjson(v) for k, v in r} for r in scn["recs"]]
    judged = dict(kind=scn["kind"], limit=scn["limit"], recs=[[[cps(k), shown(v)] for k, v in r.items()] for r in recs])
    err, out = "", ""
    table = html_table if scn["kind"] == "html" else ascii_table
    try:
        if scn["via"] == "dictset":
            ds = DictSet(iter(recs)) if scn.get("lazy") else DictSet(recs)
            f = ds.to_html_table if scn["kind"] == "html" else ds.to_ascii_table
            out = f(scn["limit"]) if not scn.get("default") else f()
        else:
            src = recs if scn["via"] == "list" else (r for r in recs)
            out = table(src, scn["limit"]) if not scn.get("default") else table(src)
    except Exception as e:
        err = type(e).__name__
    parts = out.split("<")
    return judged, dict(err=err, before=cps(parts[0]) if scn["kind"] == "html" else [], pieces=[cps(p) for p in parts[1:]] if scn["kind"] == "html" else [],
                        lines=[cps(x) for x in out.split("\n")] if scn["kind"] == "ascii" else [])
