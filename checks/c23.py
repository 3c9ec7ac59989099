"""C23 the cloud adapters store and serve the same data as local disk"""
from checks import c05, c06
from checks import writer_scn as W
from checks.layouts import DAYS, STAMPS, TPL, Layout

TRANS = ["reset", "protocol", "internal", "toomany"]
FATAL = ["forbidden", "notfound", "value", "auth", "broken"]


def outcome(rng, o):
    if o == "ok":
        return ["ok", 1]
    if o == "fatal":
        return [rng.choice(FATAL), 0]
    return [rng.choice(TRANS), int(o == "after")]


def faulty(rng, hist):
    """a session in which every append stores a blob, with the outcomes of hist"""
    fmt = rng.choice(["jsonl", "zstd", "parquet"])
    kind = rng.choice(["plain", "batch"])
    tpl, gran = rng.choice(W.TEMPLATES[:6])
    date, ds = W.when(rng, gran), rng.choice(W.DATASETS)
    s = W.slot(ds, date, tpl, gran)
    r = W.as_read(rng, date, gran)
    ops = []
    for i, h in enumerate(hist):
        if h[-1] == "fatal":  # what was stored before an error which isn't retried can't be told from what wasn't
            h = ["before" if o == "after" else o for o in h]
        rec = W.row(rng, i) if fmt == "parquet" else W.json_record(rng, i)
        ops.append(dict(w=0, op="app", rec=rec, valid=1, t=[outcome(rng, o) for o in h]))
    extra = rng.choice([[], ["before"], ["ok", "after"], ["before", "after", "ok", "before"], ["fatal"]])
    ops.append(dict(w=0, op="fin", f=0, t=[outcome(rng, o) for o in extra]))
    if extra == ["fatal"]:
        ops.append(dict(w=0, op="fin", f=0))
    return dict(kind="faults", backends=["disk", "gcs", "minio"],
                writers=[dict(kind=kind, fmt=fmt, dataset=ds, date=date, partitions=tpl, gran=gran, ds=s, frame=1 if kind == "batch" else 0,
                              blob_size=rng.choice([1, 1, 200]), schema=W.SCHEMA if fmt == "parquet" else False, always=rng.random() < 0.3)],
                ops=ops, reads=[dict(ds=s, dataset=ds, start=r, end=r, partitions=tpl)])


def listing(rng):
    seg = ["d", "dd", "d2", "year_2024", "year_20240", "x-1", "X", "day_01", "day_1"]
    objs = set()
    for _ in range(rng.choice([3, 12, 30])):
        n = [rng.choice(["b", "bucket", "b-2"])] + [rng.choice(seg) for _ in range(rng.choice([1, 2, 3]))]
        r = rng.random()
        objs.add("/".join(n + ([""] if r < 0.2 else [rng.choice(["a.jsonl", "b.parquet", "frame.complete", "d", "c"])] if r < 0.9 else [])))
    ask = {"/".join(o.split("/")[:k]) for o in objs for k in (2, 3) if len(o.split("/")) > k} | {"b/d", "bucket/d"}
    ask = {a for a in ask if "." not in a and not a.endswith("/")}
    return dict(kind="list", objects=sorted(objs), ask=sorted(ask)[:12])


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Cloud", over=dict(MaxTries=6, MaxCalls=3) if ctx.thorough else None)
    ctx.mc_broken("MC_Cloud", ["noretry", "retryall", "once", "newname", "swallow"], invariant="Contract")
    lst = dict(SPECIFICATION="ListSpec", INVARIANT="Listing")
    ctx.mc("MC_Cloud", over=lst)
    ctx.mc_broken("MC_Cloud", [(b, "Listing", dict(SPECIFICATION="ListSpec")) for b in ("noslash", "anybucket", "placeholders")])

    hists = ctx.gen("MC_Cloud", over={"INVARIANT": "Emit", "MaxCalls": 2, "MaxTries": 3}, limit=ctx.n(500, 6000))
    scns = [faulty(rng, h["h"]) for h in hists]
    for _ in range(ctx.n(40, 400)):  # long runs of errors
        scns.append(faulty(rng, [[rng.choice(["before", "after"]) for _ in range(rng.choice([8, 15, 25]))] + ["ok"]]))
    for _ in range(ctx.n(250, 4000)):
        s = W.session(rng, records=12)
        s.update(backends=["disk", "gcs", "minio"])
        scns.append(s)
    cases = ctx.drive("clouds", scns)
    fr = []
    for _ in range(ctx.n(150, 2000)):
        s = W.frames(rng)
        s.update(backends=["disk", "gcs", "minio"])
        fr.append(s)
    cases += ctx.drive("clouds", fr, env={"VERIF_CLOCK": "1"})
    lists = [listing(rng) for _ in range(ctx.n(300, 4000))]
    # more than a page of the services
    lists.append(dict(kind="list", objects=sorted(f"b/d/{i % 7}/{i:05d}.jsonl" for i in range(2300)), ask=["b/d", "b/d/3"]))
    cases += ctx.drive("clouds", lists)
    # every run on its own meets what is asked of writers
    own = []
    for c in cases:
        if c["st"] == "ok" and "judged" in c["obs"]:
            for b, j in zip(c["raw"]["backends"], c["obs"].pop("judged")):
                own.append(dict(c, kind=b, scn={"cfgs": j["cfgs"]}, obs={"ev": j["ev"], "reads": j["reads"]}))
    ctx.judge("T_Cloud", cases)
    ctx.judge("T_Writer", own)

    # layouts of folders, with names which start the same
    lay = []
    for i in range(ctx.n(500, 8000)):
        by = rng.random() < 0.3
        L = Layout(rng)
        tpl, fmt = rng.choice(TPL)
        days = sorted(rng.sample(DAYS, rng.choice([1, 1, 2])))
        ds = rng.choice(["b/data", "b/data/sub", "bucket/a_b"])
        if rng.random() < 0.3:
            tpl, fmt = [tpl[0] + "/hour_{HH}"], fmt + "/hour_09"
        hourly = "hour" in fmt
        for day in days:
            folder = ds + "/" + fmt.format(*day.split("-"))
            if by:
                c06.place(L, folder, day, c06.random_objs(rng), ("hour", "x"), ("1", "10"), sorted(rng.sample(STAMPS, 4)))
            else:
                c05.place(L, folder, day, c05.random_folder(rng), sorted(rng.sample(STAMPS, 5)))
        for _ in range(rng.choice([0, 1, 4])):
            day = rng.choice(days)
            f = fmt.format(*day.split("-"))
            near = rng.choice([ds + "2/" + f, ds + "/" + f + "0", ds + "/" + f + "_old", ds.replace("/", "2/", 1) + "/" + f, ds + "/x/" + f,
                               "x/" + ds + "/" + f])
            L.put(near, kind=rng.choice(["data", "complete", "ignore"]), frame=rng.choice(["", STAMPS[-1]]), key=None, count=1)
        if rng.random() < 0.4:  # the placeholders consoles make for folders
            f = ds + "/" + fmt.format(*days[0].split("-")) + "/"
            L.objects.append(dict(path=rng.choice([f, f + STAMPS[0] + "/", ds + "/"]), recs=[], raw=""))
        r = dict(dataset=ds, partitions=tpl, start_date=days[0], end_date=days[-1])
        if hourly:
            r.update(start_date={"$dt": days[0] + "T09:00:00"}, end_date={"$dt": days[-1] + "T09:00:00"})
        lay.append(L.scenario(r, ["gcs", "minio"][i % 2], keys=days, kind="layout"))
    ctx.judge("T_Frames", ctx.drive("layout", lay))
    ctx.assumptions += ["the services are stand-ins for the client classes (google.cloud.storage.Client, minio.Minio): an object store which lists in the order "
                        "of the names, with folder placeholders; time between attempts isn't spent",
                        "the bucket exists; names of folders have no dots"]
