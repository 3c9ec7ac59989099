"""
Calls of the helpers for records.

scenario: kind flatten | order | select | set | histogram, and the parameters of the call
"""
import copy
import re

from common import canon, cps, token, unjson

from mabel import DictSet
from mabel.data.internals import records as R


class Kept(dict):
    """a record which isn't a plain dict"""


def value(v):
    if isinstance(v, dict):
        return {"t": "d", "x": "", "v": [[cps(k), value(x)] for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "l", "x": "", "v": [[[], value(x)] for x in v]}
    return {"t": "x", "x": "null" if v is None else token(v), "v": []}


def pairs(d):
    return [[cps(k), value(v)] for k, v in d.items()]


def run(scn):
    kind = scn["kind"]
    err, out = "", []
    if kind == "histogram":
        from mabel.data.internals.histogram import Histogram

        values = [unjson(v) for v in scn["values"]]
        order = sorted(set(values))
        data = DictSet([{"v": v} for v in values]) if scn["how"] == "set" else list(values)
        try:
            h = Histogram(data, key="v", number_of_bins=scn["bins"])
            out = list(h.bins)
            text = repr(h)
            if not re.fullmatch(">.{%d}<" % scn["bins"], text):
                err = "text"
        except Exception as e:
            err = type(e).__name__
        return dict(kind=kind, bins=scn["bins"], values=[order.index(v) for v in values]), dict(err=err, out=out, same=True)
    rec = unjson(scn["rec"])
    if scn.get("kept"):
        rec = Kept(rec)
    before, judged = canon(copy.deepcopy(rec)), {"kind": kind, "rec": value(rec)}
    order = list(rec)
    try:
        if kind == "flatten":
            judged["sep"] = cps(scn["sep"])
            got = R.flatten(rec) if scn["sep"] == "." and not scn["named"] else R.flatten(rec, scn["sep"]) if not scn["named"] else R.flatten(dictionary=rec, separator=scn["sep"])
            out = [[cps(k), "null" if v is None else token(v)] for k, v in got.items()]
        elif kind == "order":
            out = pairs(R.order(rec))
        elif kind == "select":
            judged["fields"] = [cps(f) for f in scn["fields"]]
            fields = list(scn["fields"])
            out = pairs(R.select_record_fields(rec, fields))
        else:
            new = unjson(scn["value"])
            judged["field"] = cps(scn["field"])
            if scn["how"] == "plain":
                setter = new
            elif scn["how"] == "call":
                setter = lambda r: new
            else:
                # another field's value
                new = rec.get(scn["of"])
                setter = lambda r: r.get(scn["of"])
            judged["value"] = value(new)
            out = pairs(R.set_value(rec, scn["field"], setter))
    except Exception as e:
        err = type(e).__name__
    return judged, dict(err=err, out=out, same=canon(rec) == before and list(rec) == order)
