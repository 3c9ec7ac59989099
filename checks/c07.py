"""C07 a date range reads every matching partition once and nothing else"""
import datetime

TPLS = {
    "year": [["year_{yyyy}"], ["{yyyy}"]],
    "month": [["year_{yyyy}/month_{mm}"], ["{yyyy}-{mm}"], ["m{mm}", "y{yyyy}"], ["{yyyy}", "{mm}"]],
    "day": [["year_{yyyy}/month_{mm}/day_{dd}"], ["{yyyy}/{mm}/{dd}"], ["date={yyyy}-{mm}-{dd}"], ["{dd}", "{mm}", "{yyyy}"],
            ["year_{yyyy}", "month_{mm}", "day_{dd}"], ["{yyyy}{mm}{dd}"]],
    "hour": [["year_{yyyy}/month_{mm}/day_{dd}/hour_{HH}"], ["{yyyy}-{mm}-{dd}", "by_hour", "hour={HH}"], ["{HH}/{dd}/{mm}/{yyyy}"], ["{yyyy}{mm}{dd}T{HH}"]],
}
WINDOWS = [(2024, 2, 27, 5), (2023, 2, 26, 5), (2023, 12, 29, 5), (2024, 4, 28, 5), (2100, 2, 26, 5), (2000, 2, 27, 4)]


def fmt(tpl, dt):
    t = "/".join(tpl)
    for k, f in (("yyyy", "%Y"), ("mm", "%m"), ("dd", "%d"), ("HH", "%H")):
        t = t.replace("{" + k + "}", dt.strftime(f))
    return t


def slot(dt):
    return [dt.year, dt.month, dt.day, dt.hour]


def cut(dt, g):
    return dt.replace(minute=0, second=0, **{"year": dict(month=1, day=1, hour=0), "month": dict(day=1, hour=0), "day": dict(hour=0), "hour": {}}[g])


def spell(rng, dt, g):
    """a bound the ways a caller may write it"""
    forms = ["dt", "iso", "isot", "isom", "isoz"]
    if g != "hour":
        forms += ["date", "text", "date", "text"]
    f = rng.choice(forms)
    if f == "date":
        return {"$d": dt.date().isoformat()}, dt
    if f == "text":
        return dt.date().isoformat(), dt
    dt = dt.replace(minute=rng.choice([0, 0, 59, 30, 1]), second=rng.choice([0, 59, 7]))
    if f == "dt":
        return {"$dt": dt.isoformat()}, dt
    if f == "isom":
        return dt.strftime("%Y-%m-%d %H:%M"), dt
    return dt.strftime({"iso": "%Y-%m-%d %H:%M:%S", "isot": "%Y-%m-%dT%H:%M:%S", "isoz": "%Y-%m-%dT%H:%M:%SZ"}[f]), dt


def scenario(rng, a, b, g, i, missing=None, clock=None):
    tpl = rng.choice(TPLS[g])
    ds = rng.choice(["b/data", "b/data/sub", "bucket/a_b"])
    lo, hi = min(a, b), max(a, b)
    span = hi - lo
    reader = {"dataset": ds, "partitions": tpl}
    if "/" in tpl[0] and rng.random() < 0.15:
        # the placeholders may also be in the name of the dataset
        reader = {"dataset": ds + "/" + "/".join(tpl), "partitions": None}
    for name, dt in (("start_date", a), ("end_date", b)):
        if missing and name in missing:
            continue
        v, _ = spell(rng, dt, g)
        reader[name] = v
    # partitions in, on the edges of, and around the range
    cand = {cut(x, g) for x in (a, b)}
    hour, day = datetime.timedelta(hours=1), datetime.timedelta(days=1)
    for x in (lo, hi):
        for d in (-day, day, -hour, hour, 2 * day, -31 * day, 31 * day, 366 * day, -366 * day, 10 * hour):
            if rng.random() < 0.5:
                cand.add(cut(x + d, g))
    for _ in range(12):
        cand.add(cut(lo + datetime.timedelta(seconds=rng.randrange(int(span.total_seconds()) + 1)), g))
    if span < 3 * day:
        x = lo
        while x <= hi:
            cand.add(cut(x, g))
            x += hour
    objects, parts, n = [], [], 0
    for dt in sorted(cand):
        if rng.random() < 0.12:
            continue
        recs = []
        for k in range(rng.choice([1, 1, 2])):
            n += 1
            recs.append(n)
            objects.append(dict(path=f"{ds}/{fmt(tpl, dt)}/{rng.randrange(16**5):05x}-{n}{rng.choice(['.jsonl', '.jsonl', '.jsonl.zstd'])}", recs=[n]))
        parts.append(dict(slot=slot(dt), recs=recs))
    if not parts:
        objects.append(dict(path=f"{ds}/{fmt(tpl, cut(a, g))}/x.jsonl", recs=[1]))
        parts.append(dict(slot=slot(cut(a, g)), recs=[1]))
    s = dict(kind="range-" + g + ("-today" if missing else ""), objects=objects, backend="disk" if i % 5 == 0 else "mem", reader=reader,
             judge=dict(a=slot(a), b=slot(b), g=g, parts=parts))
    if clock:
        s["clock"] = clock
    return s


def run(ctx):
    rng = ctx.rng
    for w in (WINDOWS if ctx.thorough else WINDOWS[:3]):
        ctx.mc("MC_Range", over=dict(zip(("SY", "SM", "SD", "LEN"), w)))
    ctx.mc_broken("MC_Range", ["noswap", "exclusive", "daystep", "noleap", "novisited"], over={"LEN": 4}, invariant="Agree")
    gen = []
    for w in WINDOWS:
        gen += ctx.gen("MC_Range", over={**dict(zip(("SY", "SM", "SD", "LEN"), w)), "INVARIANT": "Emit", "SPECIFICATION": "InitSpec"}, limit=ctx.n(160, 2500))
    scns = []
    for i, x in enumerate(gen):
        scns.append(scenario(rng, datetime.datetime(*x["a"]), datetime.datetime(*x["b"]), x["g"], i))
    base = datetime.datetime(2023, 1, 1)
    for i in range(ctx.n(150, 2500)):
        a = base + datetime.timedelta(hours=rng.randrange(24 * 730))
        b = a + datetime.timedelta(hours=rng.choice([rng.randrange(72), rng.randrange(24 * 40), rng.randrange(24 * 400)]) * rng.choice([1, -1]))
        g = rng.choice(["year", "month", "day", "day", "hour"])
        if g == "hour" and abs((b - a).days) > 40:
            b = a + datetime.timedelta(hours=50)
        scns.append(scenario(rng, a, b, g, i))
    cases = ctx.drive("layout", scns)
    # bounds which aren't given are today, in UTC (the clock of the machine is in another time zone)
    for off in (13, -9):
        today = []
        for i in range(ctx.n(90, 1200)):
            now = rng.choice([datetime.datetime(2024, 2, 29), datetime.datetime(2023, 12, 31), datetime.datetime(2024, 3, 1), datetime.datetime(2024, 7, 15)])
            now += datetime.timedelta(hours=rng.choice([0, 23, rng.randrange(24)]), minutes=rng.choice([0, 30, 57]))
            missing = rng.choice([("start_date", "end_date"), ("end_date",), ("start_date",)])
            other = now + datetime.timedelta(hours=rng.choice([0, 1, 24, 49, -1, -24, -30, -70]))
            a = now if "start_date" in missing else other
            b = now if "end_date" in missing else other
            g = rng.choice(["month", "day", "day", "hour"])
            today.append(scenario(rng, a, b, g, i, missing=missing, clock=now.isoformat(sep=" ")))
        cases += ctx.drive("layout", today, env={"VERIF_TZ_OFFSET": str(off)})
    ctx.judge("T_Range", cases)
    ctx.assumptions += ["a bound is the hour it is in; for hourly partitions bounds are given with their time",
                        "a bound which isn't given is the present hour in UTC"]
