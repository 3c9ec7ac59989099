"""C04 a crash during a batch never exposes a partial frame"""
import datetime

from checks.layouts import TPL

OLD = ["as_at_20240101-000000", "as_at_20240110-120000", "as_at_20240110-120001", "as_at_20240229-235959"]


def before(rng, folder):
    """what is there before the first batch: (objects, what is served)"""
    objects, served, n = [], [], 1000
    kinds = rng.choice([[], [], ["done"], ["done"], ["done", "done"], ["open"], ["done", "open"], ["done", "ignored"], ["ignored"], ["open", "done", "open"]])
    for stamp, kind in zip(OLD, kinds):
        mine = []
        for i in range(rng.choice([1, 2])):
            k = rng.choice([1, 2, 3])
            recs = list(range(n + 1, n + k + 1))
            n += k
            objects.append(dict(path=f"{folder}/{stamp}/{i:02d}-{rng.randrange(16**4):04x}.jsonl", recs=recs))
            mine += recs
        if kind != "open":
            objects.append(dict(path=f"{folder}/{stamp}/frame.complete", recs=[], raw=""))
        if kind == "ignored":
            objects.append(dict(path=f"{folder}/{stamp}/frame.ignore", recs=[], raw=""))
        if kind == "done":
            served = mine
    return objects, served


def starts(rng, n):
    """n moments in order, each later than the one before by something small or something round"""
    t = datetime.datetime(2024, rng.choice([3, 12]), rng.choice([5, 29]), rng.choice([0, 9, 23]), rng.randrange(60), rng.randrange(60))
    for _ in range(n):
        yield t.strftime("%Y-%m-%d %H:%M:%S")
        t += rng.choice([datetime.timedelta(seconds=rng.choice([1, 1, 2, 9, 10, 30, 59])), datetime.timedelta(minutes=rng.choice([1, 10])),
                         datetime.timedelta(hours=rng.choice([1, 12])), datetime.timedelta(days=rng.choice([1, 31, 366])), datetime.timedelta(seconds=rng.randrange(1, 100000))])


def batch(rng, i, n):
    fmt = rng.choice(["jsonl", "zstd", "parquet"])
    pad = rng.choice([1, 30])
    b = dict(fmt=fmt, pad=pad,
             blob_size=rng.choice([1, 20, 70, 120, None]), recs=list(range(100 * i + 1, 100 * i + n + 1)), always=rng.random() < 0.3)
    if rng.random() < 0.12:
        b["failure"] = 1
    return b


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Crash", over={"MaxBatch": 4, "Blobs": 3} if ctx.thorough else None)
    ctx.mc_broken("MC_Crash", ["markfirst", "tidyfirst", "reuse"], invariant="Contract")
    scns = []

    def scenario(batches, **kw):
        tpl, fmt = rng.choice(TPL)
        ds = rng.choice(["b/data", "b/data/sub"])
        for b, at in zip(batches, starts(rng, len(batches))):
            b["at"] = at
        objects, served = before(rng, ds + "/" + fmt.format("2024", "03", "01"))
        return dict(objects=objects, first=served, dataset=ds, partitions=tpl, date="2024-03-01", batches=batches, **kw)

    for _ in range(ctx.n(32, 60)):
        scns.append(scenario([{**batch(rng, 1, rng.choice([1, 2, 3, 5])), "blob_size": rng.choice([1, 30, 70])}],
                             kind="sweep", sweep=ctx.n(60, 0), phase=rng.randrange(1000)))
    for _ in range(ctx.n(220, 3000)):
        bs = []
        for i in range(rng.choice([1, 2, 3, 4])):
            b = batch(rng, i + 1, rng.choice([0, 1, 2, 4, 7]))
            r = rng.random()
            if r < 0.35:
                # most of what matters happens at the end
                b["kill"] = {"line": rng.choice([rng.random(), 1 - rng.random() * 0.15])}
            elif r < 0.65 and b["recs"]:
                b["kill"] = {"bytes": rng.choice([0, 1, 5, 20, 25, 50, 200])}
            bs.append(b)
        scns.append(scenario(bs, kind="history"))
    rng.shuffle(scns)
    cases = ctx.drive("crash", scns, hang_s=300)
    ctx.extra["kill_points"] = sum(len(c["obs"]["steps"]) for c in cases if c["obs"])
    ctx.judge("T_Crash", cases)
    ctx.assumptions += ["a crash is the end of the process (what it handed to the operating system stays)",
                        "batches for the same date start in different seconds (the name of a frame is its second)"]
