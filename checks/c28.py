"""C28 ISO dates and time deltas are parsed exactly"""
FORMS = ["{y:04d}-{m:02d}-{d:02d}", "{y:04d}-{m:02d}-{d:02d} {h:02d}:{i:02d}", "{y:04d}-{m:02d}-{d:02d}T{h:02d}:{i:02d}", "{y:04d}-{m:02d}-{d:02d} {h:02d}:{i:02d}:{s:02d}",
         "{y:04d}-{m:02d}-{d:02d}T{h:02d}:{i:02d}:{s:02d}", "{y:04d}:{m:02d}:{d:02d}", "{y:04d}-{m:02d}-{d:02d}T{h:02d}-{i:02d}-{s:02d}", "{y:04d}-{m:02d}-{d:02d}T{h:02d}:{i:02d}:{s:02d}.{u:06d}",
         "{y}-{m}-{d}", "{y:04d}{m:02d}{d:02d}T{h:02d}{i:02d}", "{d:02d}-{m:02d}-{y:04d}", "{y:04d}/{m:02d}/{d:02d}", "{y:04d}-{m:02d}"]
TAILS = ["", "", "", "Z", "+0000", "+01:00", ".1", ".123456", ".123456789", ".5Z", ".123+01:00", "ZZ", "z", " ", "+", "-05:00", " UTC", "Z+01:00", ",5", ".123456789012345", "+01:00+02:00"]
HOT = list("0123456789-:T Z+_./") + ["\u0661", "\uff11", "\u00b2", "t", "e", "\n", "\t", "\u2003", "\x00", "\U0001f600"]
YEARS = [1, 4, 99, 100, 400, 1582, 1600, 1899, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9999, 0]


def text(rng):
    v = dict(y=rng.choice(YEARS), m=rng.choice([1, 2, 2, 4, 6, 9, 11, 12, rng.randrange(1, 13), 0, 13]), d=rng.choice([1, 28, 29, 29, 30, 31, rng.randrange(1, 29), 0, 32]),
             h=rng.choice([0, 9, 10, 23, 24, rng.randrange(24)]), i=rng.choice([0, 59, 60, rng.randrange(60)]), s=rng.choice([0, 59, 60, rng.randrange(60)]), u=rng.randrange(10**6))
    t = rng.choice(FORMS[:8] * 3 + FORMS[8:]).format(**v) + rng.choice(TAILS)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        k = rng.randrange(3)
        t = t[:i] + (rng.choice(HOT) if k else "") + t[i + (k < 2):]
    return t


def delta(rng):
    if rng.random() < 0.1:
        return rng.choice(["", "d", "-", "5", "x5d", " 5d", "5 d", "+5d", "5.5h", "--5d", "5d5d", "s", "1w", "0d0h0m0s"])
    units = [u for u in "dhms" if rng.random() < 0.6]
    if rng.random() < 0.1:
        rng.shuffle(units)
    t = "".join(f"{rng.choice(['', '', '-'])}{rng.choice([0, 1, 7, 23, 24, 59, 60, 61, 90, 400, 9999, rng.randrange(3000)])}{rng.choice([u, u, u.upper()])}" for u in units)
    return t + rng.choice(["", "", "", "x", " 3s", "-", "7"])


def days(y, m):
    return [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def moment(rng):
    y, m = rng.choice([1900, 1999, 2000, 2023, 2024, 2100]), rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13)])
    return [y, m, rng.choice([1, days(y, m), rng.randrange(1, days(y, m) + 1)]), rng.choice([0, 0, 23, rng.randrange(24)]), rng.choice([0, 59]), rng.choice([0, 59])]


def shift(rng, t, hours):
    import datetime

    try:
        x = datetime.datetime(*t) + datetime.timedelta(hours=hours, minutes=rng.choice([0, 0, -59, 59]))
    except OverflowError:
        return t
    return [x.year, x.month, x.day, x.hour, x.minute, x.second]


def given(rng, t):
    """a value which is this time, or its day: (value, time, whether it's a day)"""
    iso = "{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}".format(*t)
    k = rng.randrange(6)
    if k == 0:
        return ["", iso[:10]], t[:3] + [0, 0, 0], True
    if k == 1:
        return ["", {"$d": iso[:10]}], t[:3] + [0, 0, 0], True
    if k == 2:
        return ["", {"$dt": iso}], t, False
    if k == 3:
        return ["pd", iso], t, False
    if k == 4:
        return ["", iso[:16]], t[:5] + [0], False
    return ["", iso.replace("T", " ") + rng.choice(["", "Z", ".5"])], t, False


def others(rng):
    t = moment(rng)
    iso = "{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}".format(*t)
    k = rng.randrange(8)
    if k == 0:
        return ["", {"$dt": iso}], [2] + t
    if k == 1:
        return ["", {"$d": iso[:10]}], [2] + t[:3] + [0, 0, 0]
    if k == 2:
        n = rng.choice([0, 1, 86399, 86400, 951782400, 1709164800, 2**31 - 1, -1, -86400, -2203891200 // 2, rng.randrange(2**31)])
        return ["", n if rng.random() < 0.7 else float(n)], [1, n]
    if k == 3:
        return ["np", iso], [2] + t
    if k == 4:
        return ["np", iso[:10]], [2] + t[:3] + [0, 0, 0]
    if k == 5:
        return ["pd", iso], [2] + t
    return ["", rng.choice([None, True, False, [], ["2024-01-01"], {"a": 1}, {"$b": "323032342d30312d3031"}, 1e18, 1e300, -1e300, {"$f": "nan"}, {"$f": "inf"}, 10**30, {"$dec": "5"}, {"$set": [1]}])], [0]


def run(ctx):
    rng = ctx.rng
    if ctx.thorough:
        ctx.mc("MC_Calendar", over=dict(From=1600, To=2400))
        ctx.mc("MC_Iso", over=dict(MaxEdits=2))
    else:
        ctx.mc("MC_Calendar")
        ctx.mc("MC_Iso")
    ctx.mc_broken("MC_Calendar", ["leap"], over=dict(From=1890, To=1905))
    ctx.mc_broken("MC_Iso", ["digits", "leap", "midnight", "zulu", "prefix", "sep", "short"], over=dict(MaxEdits=2))
    def batches(xs, k=40):
        return [xs[i:i + k] for i in range(0, len(xs), k)]
    texts = [g["s"] for g in ctx.gen("MC_Iso", over={"INVARIANT": "Emit"})]
    texts += [g["s"] for g in ctx.gen("MC_Iso", over={"INVARIANT": "Emit", "MaxEdits": 4}, simulate=ctx.n(4, 60), depth=6, limit=ctx.n(4000, 60000))]
    texts += [text(rng) for _ in range(ctx.n(20000, 300000))]
    years = range(1600, 2401) if ctx.thorough else [1899, 1900, 1904, 1999, 2000, 2023, 2024, 2100]
    for y in years:  # every day of some years, and those which aren't
        texts += [f"{y:04d}-{m:02d}-{d:02d}" + rng.choice(["", "T23:59:59", " 00:00"]) for m in range(0, 14) for d in range(0, 33) if 27 < d or d < 2 or rng.random() < 0.3]
    scns = [dict(kind="texts", texts=b) for b in batches(texts)]
    scns += [dict(kind="deltas", texts=b) for b in batches([delta(rng) for _ in range(ctx.n(4000, 50000))])]
    for _ in range(ctx.n(100, 1000)):
        vs = [others(rng) for _ in range(20)]
        scns.append(dict(kind="others", values=[v for v, _ in vs], want=[w for _, w in vs]))
    def ranges(n, clock=None):
        out = []
        for _ in range(n):
            t = moment(rng)
            u = shift(rng, t, rng.choice([0, 1, 5, 23, 24, 25, 48, 24 * 31, 24 * 60, rng.randrange(800), -1, -24]))
            (a, s, _), (b, e, whole) = given(rng, t), given(rng, u)
            r = dict(kind="range", a=a, b=b, start=s, end=e, whole=whole)
            if clock:
                c = moment(rng)
                r["clock"] = "{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}".format(*(c[:4] + [min(c[4], 58), c[5] // 2]))
                if rng.random() < 0.5:
                    r.update(b=["", None], end=c, whole=False)
                    (r["a"], r["start"], _) = given(rng, shift(rng, c, -rng.choice([0, 1, 30, 200])))
                if rng.random() < 0.4:
                    r.update(a=["", None], start=c)
                    if r["b"][1] is not None:
                        (r["b"], r["end"], r["whole"]) = given(rng, shift(rng, c, rng.choice([0, 1, 30, 200])))
            out.append(r)
        return out
    scns += ranges(ctx.n(800, 8000))
    ctx.judge("T_Iso", ctx.drive("iso", scns))
    ctx.judge("T_Iso", ctx.drive("iso", ranges(ctx.n(200, 1500), clock=True)))
    ctx.assumptions += ["numbers are seconds since 1970 in the zone of the process, which is UTC here", "deltas of up to 9999 of each unit",
                        "what follows the seconds (fractions, offsets, names of zones, anything) is ignored"]
