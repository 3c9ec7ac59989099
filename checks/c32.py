"""C32 what a reader, writer or set gives doesn't depend on the others there are"""
KINDS = ["batch", "stream", "db", "read", "read", "sql", "resume", "grow", "set", "sort", "group", "valid"]


def job(rng, i, kind, rows=None, like=None):
    kind = kind or rng.choice(KINDS)
    if rows is None:
        k = rng.choice([3, 4, 6, 12])
        rows = [[100 * (i + 1) + x, rng.randrange(4), (x * 3) // k + 1] for x in range(k)]
    r = rng.choice([0, 1, 2, 3, 9])
    if kind == "valid":
        r = rng.choice([0, 1, 2, 9])
    a = rng.choice([1, 1, 2, 3])
    j = dict(kind=kind, rows=rows, a=a, b=rng.randrange(a, 4), r=r, k=rng.choice([1, 2, 3, 5, 50]), c=rng.choice([2, 3]),
             form=dict(fmt=rng.choice(["jsonl", "parquet" if kind != "sql" else "jsonl", "jsonl"]), parts=rng.choice([None, ["year_{yyyy}"], ["{yyyy}/{mm}/{dd}"]]),
                       blob=rng.choice([1, 60, 200, 64 * 1024]), batch=rng.choice([2, 100]), list=int(rng.random() < 0.5), schema=rng.choice(["list", "fields", "fields", "columns", "text", "made"]), expect=int(rng.random() < 0.2), select=int(rng.random() < 0.3), dots=int(rng.random() < 0.5)))
    if kind == "sql":
        j.update(a=1, b=3)
    if kind == "resume":
        # as many records as there are at most
        n = len([x for x in rows if j["a"] <= x[2] <= j["b"] and x[1] != r])
        j["k"] = rng.randrange(n + 1)
    return j


def scenario(rng, how, n, kind=None):
    share = rng.random() < 0.3
    jobs = [job(rng, 0, kind)]
    for i in range(1, n):
        same = rng.random()
        rows = jobs[0]["rows"] if share else None
        jobs.append(job(rng, i, jobs[0]["kind"] if same < 0.5 else None, rows))
    if not share and rng.random() < 0.6:
        for j in jobs:
            if j["kind"] == "stream":
                j["form"]["same"] = 1
    return dict(how=how, kind=how, seed=rng.randrange(10**6), store=rng.choice(["own", "own", "one"]), share=int(share), jobs=jobs)


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Together", over=dict(NJobs=3, NRows=3) if ctx.thorough else None)
    ctx.mc_broken("MC_Together", ["buffer", "position", "last", "kept"], over=dict(NRows=3), invariant="Contract")
    scns = []
    for g in ctx.gen("MC_Together", over={"INVARIANT": "Emit", "NJobs": 3, "NRows": 6}, simulate=ctx.n(600, 6000), depth=40, limit=ctx.n(600, 6000)):
        scns.append(dict(scenario(rng, "steps", 3), sched=[x - 1 for x in g["sched"]]))
    for i in range(ctx.n(4000, 40000)):
        n = rng.choice([2, 2, 3, 5])
        how = rng.choice(["steps", "steps", "steps", "after", "threads", "threads"])
        s = scenario(rng, how, n, KINDS[i % len(KINDS)])
        # one after the other, or in any order from where they've all begun
        s["sched"] = [x for j in range(n) for x in [j] * 500] if how == "after" else [] if rng.random() < 0.5 else list(range(n)) * rng.choice([1, 3, 50])
        scns.append(s)
    ctx.judge("T_Together", ctx.drive("together", scns))
    ctx.assumptions += ["jobs in threads run with the shortest switch interval; their interleaving isn't enumerated"]
