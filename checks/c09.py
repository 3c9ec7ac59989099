"""C09 a read resumed from a cursor continues exactly where it stopped"""

FILTERS = [None, None, "v > 2", "v = 2 OR v > 4", ["v", "<", 3], [["v", ">", 1], ["v", "<", 5]], "name LIKE 'n1' OR name = 'n3'", "NOT v = 3"]
KEEP = {
    "v > 2": lambda v: v > 2, "v = 2 OR v > 4": lambda v: v == 2 or v > 4, "name LIKE 'n1' OR name = 'n3'": lambda v: v in (1, 3), "NOT v = 3": lambda v: v != 3,
}


def keeps(f):
    if f is None:
        return lambda v: True
    if isinstance(f, str):
        return KEEP[f]
    if isinstance(f[0], str):
        return lambda v: v < 3
    return lambda v: 1 < v < 5


def build(rng, counts, hops, kind, exact):
    """counts: records per blob which the filter leaves (exact) or holds"""
    filt = rng.choice(FILTERS)
    keep = keeps(filt)
    good = [v for v in range(7) if keep(v)]
    bad = [v for v in range(7) if not keep(v)]
    n, objects, blobs = 0, [], []
    days = rng.choice([["2024-02-29"], ["2024-02-28", "2024-02-29", "2024-03-01"]])
    tpl, fmt = rng.choice([(["{yyyy}/{mm}/{dd}"], "{}/{}/{}"), (["year_{yyyy}/month_{mm}/day_{dd}"], "year_{}/month_{}/day_{}")])
    day_of = sorted(rng.choice(range(len(days))) for _ in counts)
    if len(days) > 1 and rng.random() < 0.5:
        day_of = [0] * len(counts)
    same = rng.random() < 0.5  # the names start again in every folder
    exts = rng.choice([[".jsonl"], [".jsonl", ".jsonl.zstd"], [".jsonl", ".parquet"]])
    for i, k in enumerate(counts):
        vs = [rng.choice(good) for _ in range(k)] if exact else [rng.randrange(7) for _ in range(k)]
        if bad and exact:
            for _ in range(rng.choice([0, 0, 1, 3])):
                vs.insert(rng.randrange(len(vs) + 1), rng.choice(bad))
        recs = list(range(n + 1, n + len(vs) + 1))
        n += len(vs)
        name = f"{i - day_of.index(day_of[i]):03d}-data{exts[0]}" if same else f"{i:03d}-{rng.randrange(16**4):04x}{rng.choice(exts)}"
        o = dict(path=f"b/data/{fmt.format(*days[day_of[i]].split('-'))}/{name}", recs=recs, vs=vs)
        objects.append(o)
        blobs.append([r for r, v in zip(recs, vs) if keep(v)])
    backend = rng.choice(["mem", "mem", "disk"])
    if backend == "mem" and rng.random() < 0.2:
        i = rng.randrange(len(objects))
        objects[i]["broken"] = 1
        blobs[i] = []
    kw = dict(dataset="b/data", partitions=tpl, start_date=days[0], end_date=days[-1])
    if filt is not None:
        kw["filters"] = filt
    if rng.random() < 0.3:
        kw["select"] = rng.choice(["id, v, name", "*"])
    grows = any(h["seen"] != hops[0]["seen"] for h in hops)
    for h in hops:
        h["form"] = rng.choice(["dict", "json", "dumps", "map"] + ([] if grows else ["object"]))
    return dict(kind=kind, objects=objects, backend=backend, kw=kw, hops=hops,
                judge=dict(blobs=blobs, hops=[dict(seen=h["seen"], n=h["n"]) for h in hops]))


def from_model(rng, b):
    counts = list(b["blobs"])
    n_add = sum(1 for x in b["h"] if x[0] == "a")
    seen = len(counts) - n_add
    hops, cur, late = [], dict(seen=seen, n=0), seen
    for x in b["h"]:
        if x == "r":
            cur["n"] += 1
        elif x == "e":
            cur["n"] = -1
        elif x[0] == "a":
            late += 1
        else:
            hops.append(cur)
            cur = dict(seen=late, n=0)
    hops.append(cur)
    return build(rng, counts, hops, "model", True)


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Cursor", over={"MaxBlobs": 4, "MaxHops": 4} if ctx.thorough else None)
    ctx.mc_broken("MC_Cursor", ["keeploc", "nomap", "allmap", "nopart", "reread", "skip"], invariant="Contract")
    gen = ctx.gen("MC_Cursor", over={"INVARIANT": "Emit", "VIEW": "", "MaxBlobs": 3, "MaxHops": 1, "MaxRecs": 2}, limit=ctx.n(700, 5000))
    gen += ctx.gen("MC_Cursor", over={"INVARIANT": "Emit", "VIEW": "", "MaxBlobs": 3, "MaxAdds": 2}, simulate=ctx.n(6000, 60000), depth=24, limit=ctx.n(500, 6000))
    scns = [from_model(rng, b) for b in gen]
    for _ in range(ctx.n(700, 9000)):
        n = rng.choice([1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 40])
        few = rng.random() < 0.05
        if few:
            n = rng.choice([63, 64, 65, 70, 127, 129, 200, 257])
        counts = [rng.choice([0, 1, 2] if few else [0, 1, 2, 3, 5, 9]) for _ in range(n)]
        adds = rng.choice([0, 0, 1, 3, 9])
        counts += [rng.choice([0, 1, 2, 4]) for _ in range(adds)]
        seen, hops = n, []
        for _ in range(rng.choice([1, 2, 3, 6])):
            hops.append(dict(seen=seen, n=rng.choice([0, 1, 1, 2, 3, 7, 20, 60, n, -1])))
            if seen < len(counts) and rng.random() < 0.6:
                seen += rng.randrange(1, len(counts) - seen + 1)
        hops.append(dict(seen=len(counts), n=-1))
        scns.append(build(rng, counts, hops, "random", False))
    cases = ctx.drive("cursor", scns)
    ctx.judge("T_Cursor", cases)
    ctx.assumptions += ["blobs added between readers have names that sort after those there are", "blobs that were there are not removed or changed"]
