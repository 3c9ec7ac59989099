"""
Dates, deltas and ranges of hours.

scenario: kind texts (texts) | others (values) | deltas (texts) | range (a, b) | now (a, b, clock)
"""
import datetime
import itertools

import common
from common import cps, unjson

from mabel.utils.dates import date_range, parse_delta, parse_iso


class Text(str):
    pass


def point(t):
    if t is None:
        return []
    if isinstance(t, (datetime.datetime, common.REAL_DATETIME)):
        return [t.year, t.month, t.day, t.hour, t.minute, t.second] + ([t.microsecond] if t.microsecond else [])
    return [-1]


def attempt(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return e


def other(v):
    k, x = v
    if k == "np":
        import numpy

        return numpy.datetime64(x)
    if k == "pd":
        import pandas

        return pandas.Timestamp(x)
    return unjson(x)


def run(scn):
    kind = scn["kind"]
    if kind == "texts":
        out = []
        for t in scn["texts"]:
            s = "".join(map(chr, t)) if isinstance(t, list) else t
            a = attempt(parse_iso, s)
            out.append([-2] if isinstance(a, Exception) else point(a))
        return dict(kind=kind, texts=[t if isinstance(t, list) else cps(t) for t in scn["texts"]]), dict(points=out)
    if kind == "others":
        out = []
        for v in scn["values"]:
            a = attempt(parse_iso, other(v))
            out.append([-2] if isinstance(a, Exception) else point(a))
        return dict(kind=kind, want=scn["want"]), dict(points=out)
    if kind == "deltas":
        out = []
        for t in scn["texts"]:
            a = attempt(parse_delta, t)
            out.append([a.days, a.seconds] if type(a) is datetime.timedelta else [-1, -1])
        return dict(kind=kind, texts=[cps(t) for t in scn["texts"]]), dict(deltas=out)
    if scn.get("clock"):
        common.set_clock(scn["clock"], True)
    a, b = (other(scn[k]) for k in "ab")
    r = attempt(lambda: list(itertools.islice(date_range(a, b), 3000)))
    bad = isinstance(r, Exception)
    return dict(kind=kind, start=scn["start"], end=scn["end"], whole=scn["whole"]), dict(err=type(r).__name__ if bad else "", hours=[] if bad else [point(t) for t in r])
