"""C10 a read with several processes returns the same records as a serial read, and ends"""
from checks import writer_scn as W

TEXTS = [t for t in W.TEXTS if "\x00" not in t]


def record(rng, i):
    if rng.random() < 0.04:
        return {}
    r = {"i": i, "g": rng.choice([0, 1, 2])}
    for k in rng.sample(["t", "n", "b", "z", "\u00fc", "a b"], rng.randrange(5)):
        r[k] = rng.choice([None, True, False, 0, -1, 2**53, -(2**62), 0.5, 1e-9, 1.5e300, 3.0, rng.choice(TEXTS), rng.choice(TEXTS)])
    return r


def scenario(rng, n, cpus, **kw):
    blobs, i = [], 0
    for _ in range(n):
        fmt = rng.choice(["jsonl", "jsonl", "jsonl.zstd", "parquet"])
        k = rng.choice([0, 1, 1, 2, 5, 12])
        if fmt == "parquet":
            recs = [{"i": i + j, "g": rng.choice([0, 1, 2]), "v": rng.choice([None] + TEXTS), "d": rng.choice([None, 0.5, 3.0])} for j in range(max(k, 1))]
        else:
            recs = [record(rng, i + j) for j in range(k)]
        i += len(recs)
        b = dict(fmt=fmt, recs=recs)
        x = rng.random()
        if x < 0.08:
            b["bad"] = "unreadable"
        elif x < 0.12 and fmt != "jsonl":
            b["bad"] = "garbage"
        elif x < 0.2 and fmt == "jsonl" and recs:
            b.update(bad=rng.choice(["cut", "middle"]), n=rng.randrange(len(recs)))
        blobs.append(b)
    s = dict(blobs=blobs, cpus=cpus, seed=rng.randrange(10**9), stop=-1, pause=0, **kw)
    if rng.random() < 0.2:
        f = rng.choice([0, 1, 5])
        s.update(filter=f, form=rng.choice([["g", "=", f], f"g = {f}"]))
    return s


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Multi")
    ctx.mc("MC_Multi", over=dict(NBlobs=7, NProcs=3) if ctx.thorough else dict(NBlobs=4, NProcs=3, PROPERTY=""), timeout=3000)
    ctx.mc_broken("MC_Multi", [("giveup", "NoStuck"), ("full", "Contract"), ("oneend", "NoStuck"), ("noterminate", "NoStuck"), ("eager", "NoStuck")],
                  over={"PROPERTY": "", "NBlobs": 4, "NProcs": 3})
    gen = ctx.gen("MC_Multi", over={"INVARIANT": "Emit", "PROPERTY": "", "Sched": True, "NBlobs": 6, "NProcs": 3}, simulate=ctx.n(250, 3000), depth=80)
    scns = []
    for g in gen:
        s = scenario(rng, 6, 4, kind="script", policy="script", feeder=0)
        for b in s["blobs"]:
            b.pop("bad", None)
            b.pop("n", None)
        s.pop("filter", None)
        # the steps of the model, each for the few operations of queues which they stand for
        s["script"] = [x for a in g["h"] for x in ["main" if a == 0 else f"p{a}"] * rng.choice([1, 2, 3, 6])]
        if g["stop"]:
            total = sum(len(b["recs"]) for b in s["blobs"])
            s["stop"] = min(total, g["stop"] * 2)
        scns.append(s)
    for _ in range(ctx.n(450, 9000)):
        cpus = rng.choice([2, 2, 3, 4, 8])
        s = scenario(rng, rng.choice([5, 5, 6, 7, 8, 12, 3 * cpus + 1, 1, 4]), cpus, kind="virtual", policy=rng.choice(["random", "random", "pct", "coarse"]),
                     switch=rng.choice([0.02, 0.2, 0.6]), feeder=rng.choice([0, 1, 50, 1500]))
        s["pause"] = rng.choice([0, 0, 0.5, 2, 45])
        total = sum(len(b["recs"]) for b in s["blobs"])
        if s["pause"] == 45 and total > 30:
            s["pause"] = 10
        if rng.random() < 0.25:
            s["stop"] = rng.choice([0, 1, 2, total // 2, total, total + 3])
        scns.append(s)
    cases = ctx.drive("mp", scns)
    real = []
    for _ in range(ctx.n(60, 900)):
        s = scenario(rng, rng.choice([5, 6, 8, 15, 30]), 8, kind="real", slow=rng.choice([0, 0.05, 0.3]))
        s["pause"] = rng.choice([0, 0, 0.05, 0.3])
        if rng.random() < 0.3:
            s["stop"] = rng.choice([1, 2, 7])
        real.append(s)
    cases += ctx.drive("mpreal", real, procs=4, hang_s=25)
    ctx.judge("T_Multi", cases)
    ctx.assumptions += ["records are flat: text, numbers (no NaN or infinity), booleans and nulls; blobs are jsonl, zstd and parquet",
                        "a read takes less than the 600 seconds the processes may run for",
                        "in most of the runs processes, queues and time are made deterministic (threads of a scheduler); the rest uses processes"]
