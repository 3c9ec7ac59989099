"""C08 the freshness limit bounds how far back data is looked for"""
import datetime

from checks.layouts import STAMPS, TPL, Layout

DATES = ["2024-03-01", "2024-01-01", "2023-03-01", "2024-02-29", "2024-07-15", "2024-03-02", "2024-01-02"]
STATES = ["none", "none", "plain", "open", "ignored", "done", "hollow", "backout", "older", "by", "byopen", "other", "other"]


def put_day(L, folder, key, state):
    rng = L.rng
    a, b = sorted(rng.sample(STAMPS, 2))
    one = dict(count=rng.choice([1, 2, 3]), key=key)
    ctl = dict(key=key)
    if state == "other":  # nothing a reader reads
        for _ in range(rng.choice([1, 2])):
            L.put(folder, kind="other", sub=rng.choice(["", "", "x"]), key=key)
    elif state == "plain":
        L.put(folder, sub=rng.choice(["", "", "x"]), **one)
        if rng.random() < 0.3:
            L.put(folder, kind="backout", **one)
    elif state == "backout":
        L.put(folder, kind="backout", **one)
    elif state in ("open", "ignored", "done", "hollow", "older"):
        if state != "hollow":
            for _ in range(rng.choice([1, 2])):
                L.put(folder, frame=a, rank=1, **one)
        if state != "open":
            L.put(folder, frame=a, rank=1, kind="complete", **ctl)
        if state == "ignored":
            L.put(folder, frame=a, rank=1, kind="ignore", **ctl)
        if state == "older":
            L.put(folder, frame=b, rank=2, **one)
    elif state in ("by", "byopen"):
        for v in rng.sample(["1", "10", "2"], 2):
            L.put(folder, by="by_hour", part=f"hour={v}", frame=a, rank=1, **one)
            if state == "by":
                L.put(folder, by="by_hour", part=f"hour={v}", frame=a, rank=1, kind="complete", **ctl)


def limit_text(rng, hours):
    d, h = divmod(hours, 24)
    forms = [f"{d}d{h}h" if h and d else (f"{d}d" if d else f"{h}h"), f"{hours}h", f"{hours * 60}m"]
    if h:
        forms.append(f"{d}d{h - 1}h60m")
    return rng.choice(forms)


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Fresh", over={"NDAYS": 4} if ctx.thorough else None)
    ctx.mc_broken("MC_Fresh", ["anyblob", "hollow", "late", "early", "roundup"], invariant="Contract", over={"PROPERTY": ""})
    gen = ctx.gen("MC_Fresh", over={"INVARIANT": "Emit", "PROPERTY": "", "SPECIFICATION": "InitSpec"}, limit=ctx.n(1000, 6000))
    for _ in range(ctx.n(700, 8000)):
        n = rng.choice([1, 2, 4, 6, 9])
        days = [rng.choice(STATES[:2] + STATES[3:5] + STATES[6:8] + ["other"] if rng.random() < 0.6 else STATES) for _ in range(n)]
        gen.append(dict(days=days, limit=rng.choice([-1, 0, 1, 23, 24, 25, 47, 48, 72, 96, 100, 120, 168, 240])))
    plain, clocked = [], []
    for i, g in enumerate(gen):
        L = Layout(rng)
        tpl, fmt = rng.choice(TPL)
        ds = rng.choice(["b/data", "b/data/sub", "bucket/a_b"])
        day0 = datetime.date.fromisoformat(rng.choice(DATES))
        at = datetime.datetime.combine(day0, datetime.time(rng.choice([0, 0, 9, 23]), rng.choice([0, 59])))
        for k, s in enumerate(g["days"]):
            day = day0 - datetime.timedelta(days=k)
            put_day(L, ds + "/" + fmt.format(*day.isoformat().split("-")), k, s)
        # what's after the date is never looked at
        later = day0 + datetime.timedelta(days=1)
        L.put(ds + "/" + fmt.format(*later.isoformat().split("-")), count=1, key=None)
        reader = dict(dataset=ds, partitions=tpl)
        ranged, clock = 0, None
        r = rng.random()
        if r < 0.15:
            clock = at.isoformat(sep=" ")
        elif g["limit"] > 0 and r < 0.25:
            ranged = 1
            reader.update(start_date=(day0 - datetime.timedelta(days=rng.choice([1, 2, 31, 366]))).isoformat(), end_date=day0.isoformat())
        else:
            for k in ("start_date", "end_date"):
                v = rng.choice([{"$dt": at.isoformat()}, at.strftime("%Y-%m-%d %H:%M")])
                if at.hour == at.minute == 0:
                    v = rng.choice([v, day0.isoformat(), {"$d": day0.isoformat()}])
                reader[k] = v
        if g["limit"] >= 0:
            reader["freshness_limit"] = limit_text(rng, g["limit"]) if g["limit"] else rng.choice(["1s", "", "0d"])
        days = [[dict(o) for o in L.folders.get(k, [])] or [dict(by="", part="", frame=0, kind="other", recs=[])] for k in range(len(g["days"]))]
        s = dict(kind="range" if ranged else "today" if clock else "date", objects=L.objects, backend="disk" if i % 4 == 0 else "mem", reader=reader,
                 judge=dict(days=days, limit=g["limit"], range=ranged))
        if clock:
            s["clock"] = clock
        (clocked if clock else plain).append(s)
    cases = ctx.drive("layout", plain) + ctx.drive("layout", clocked)
    ctx.judge("T_Fresh", cases)
    ctx.assumptions.append("a day has data when it has a blob to serve; blobs in the scenarios hold at least one record")
