"""C33 the helpers for records lose no value, and leave their source alone"""
from checks import writer_scn as W

NAMES = ["a", "b", "c", "ab", "A", "\u00e9", "x y", "0", "1", "10", "items", "_", "z" * 30, "B", "keys", "\U0001F600"]
SEPS = [".", ".", ".", "_", "/", "->", "::", "", " "]
LEAVES = ["", "x", "text", 0, 1, -5, 2**40, 1.5, True, False, None, "0", {"$dt": "2024-02-29T23:59:59"}]


def value(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.4:
        return rng.choice(LEAVES)
    if r < 0.7:
        return record(rng, depth - 1)
    return [value(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 11]))]


def record(rng, depth, few=False):
    ks = rng.sample(NAMES, rng.choice([1, 2, 3] if few else [0, 1, 2, 3, 5, 9]))
    return {k: value(rng, depth) for k in ks}


def plain(v):
    """a value of the specification"""
    if v["t"] == "x":
        return int(v["x"])
    if v["t"] == "l":
        return [plain(x[1]) for x in v["v"]]
    return {"".join(map(chr, k)): plain(x) for k, x in v["v"]}


def histogram(rng):
    k = rng.choice([1, 2, 3, 10, 50])
    r = rng.random()
    if r < 0.4:
        vs = [rng.randrange(-5, 20) for _ in range(k)]
    elif r < 0.6:
        vs = [rng.choice([0, 0.1, 0.5, 1.5, -2.25, 1e6, 3]) for _ in range(k)]
    elif r < 0.8:
        vs = [rng.randrange(10**12) for _ in range(k)]
    else:
        vs = [rng.choice([5, 5, 5, 6]) for _ in range(k)]
    return dict(kind="histogram", values=vs, bins=rng.choice([2, 3, 5, 10, 10, 33]), how=rng.choice(["list", "set"]))


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Records")
    ctx.mc_broken("MC_Records", ["noparent", "nosep", "single", "lists", "one"], invariant="Contract")
    scns = []
    for g in ctx.gen("MC_Records", over={"INVARIANT": "Emit"}, simulate=ctx.n(300, 2000), depth=60, limit=ctx.n(300, 2000)):
        scns.append(dict(kind="flatten", rec=plain(g["rec"]), sep=rng.choice(SEPS), named=int(rng.random() < 0.3)))
    for _ in range(ctx.n(1500, 20000)):
        scns.append(dict(kind="flatten", rec=record(rng, rng.choice([0, 1, 2, 3])), sep=rng.choice(SEPS), named=int(rng.random() < 0.3), kept=int(rng.random() < 0.1)))
    for _ in range(ctx.n(800, 8000)):
        r = record(rng, 1)
        k = rng.choice(["order", "select", "set"])
        s = dict(kind=k, rec=r, kept=int(rng.random() < 0.1))
        if k == "select":
            s["fields"] = rng.sample(NAMES, rng.choice([0, 1, 3, len(NAMES)])) + (rng.sample(sorted(r), 1) if r and rng.random() < 0.5 else [])
        if k == "set":
            s.update(field=rng.choice(sorted(r) if r and rng.random() < 0.5 else NAMES), value=value(rng, 1), how=rng.choice(["plain", "call", "of"]), of=rng.choice(NAMES))
        scns.append(s)
    scns += [histogram(rng) for _ in range(ctx.n(400, 4000))]
    ctx.judge("T_Records", ctx.drive("records", scns))
    ctx.assumptions += ["no two values have the same path (a field a.b beside a field b of a)", "histograms have two or more bins and one or more values"]
