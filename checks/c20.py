"""C20 Every storage class gives the same answers"""
from checks import c19

STORES = ["MEMORY", "DISK", "COMPRESSED_MEMORY"]
BATCH = 250


def real(rng, i):
    """positions and sizes of the model (batches of two) as real ones"""
    return (i // 2) * BATCH + (0 if i % 2 == 0 else rng.choice([1, 249, 249, rng.randrange(1, 250)]))


def mixed(rng, at):
    at = sorted(at)
    if rng.random() < 0.4:
        rng.shuffle(at)
    return at


def from_model(rng, h, store, small):
    if small:
        n, pos = h["n"], lambda i: i
    else:
        n = real(rng, h["n"])

        def pos(i):
            return min(n - 1, real(rng, i))

    calls = []
    for c in h["calls"]:
        if c["k"] == "take":
            take = c["n"] if small else rng.choice([c["n"], c["n"] * 249, c["n"] * BATCH])
            calls.append(dict(chain=[dict(k="take", n=take)], end=dict(k="list", how=rng.choice(["iter", "collect", "next"]))))
        elif c["k"] == "items":
            calls.append(dict(chain=[], end=dict(k="items", at=mixed(rng, {pos(i) for i in c["at"]}))))
        elif c["k"] == "count":
            calls.append(dict(chain=[], end=dict(k="count", maybe=0)))
        elif c["k"] == "list":
            calls.append(dict(chain=[], end=dict(k="list", how=rng.choice(["iter", "collect", "next", "itake"]))))
        else:
            calls.append(dict(chain=[], end=dict(k="first")))
    return dict(many=dict(n=n, seed=rng.randrange(10**6), size=rng.choice([0, 3, 40])), store=store, fresh=False, ids=True, calls=calls,
                from_gen=rng.random() < 0.7, kind=f"{store} {'small' if small else 'large'}")


def large(rng, store, n, size):
    calls = []
    for _ in range(4):
        chain = []
        if rng.random() < 0.4:
            chain.append(dict(k="filter", f="k", c=rng.choice(["<", "="]), v=rng.randrange(n // 3 + 2), how=rng.choice(["func", "dnf", "text"])))
        if rng.random() < 0.3:
            chain.append(dict(k="take", n=rng.choice([1, 249, 250, 251, 500, n, n + 1])))
        if rng.random() < 0.2 and n < 400:
            chain.append(dict(k="distinct", cols=["k"]))
        e = rng.choice(["list", "list", "first", "count", "items"])
        if e == "list":
            end = dict(k=e, how=rng.choice(["iter", "collect", "next", "itake"]))
        elif e == "items" and n and not chain:
            edge = [i for i in (0, 1, 248, 249, 250, 251, 499, 500, n - 2, n - 1) if 0 <= i < n]
            end = dict(k=e, at=mixed(rng, set(rng.sample(edge, rng.randrange(1, len(edge) + 1)) + [rng.randrange(n)])))
        elif e == "count":
            end = dict(k=e, maybe=0)
        else:
            end = dict(k="first")
        calls.append(dict(chain=chain, end=end))
    return dict(many=dict(n=n, seed=rng.randrange(10**6), size=size), store=store, fresh=False, ids=True, calls=calls, kind=store + " large")


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Store", over={"MaxCalls": 4} if ctx.thorough else {})
    ctx.mc_broken("MC_Store", ["nolast", "noreset", "samebatch", "offbyone"], over={"MaxCalls": 2}, invariant="Contract")
    hs = ctx.gen("MC_Store", over={"INVARIANT": "Emit"})
    scns = []
    for store in STORES:
        scns += [from_model(rng, h, store, True) for h in rng.sample(hs, ctx.n(200, 2500))]
        scns += [from_model(rng, h, store, False) for h in rng.sample(hs, ctx.n(60, 800))]
        for n in [249, 250, 251, 500, 501] + [rng.choice([750, 1000, 1001, 1499]) for _ in range(ctx.n(2, 40))]:
            scns.append(large(rng, store, n, rng.choice([0, 5, 200])))
        # over the 16Mb buffer
        scns.append(large(rng, store, 300, 160000 if not ctx.thorough else 400000))
    ctx.judge("T_Store", ctx.drive("sets", scns))
    # the whole set of operations on small sets, including empty records
    small = [c19.scenario(rng, store=s) for s in STORES for _ in range(ctx.n(450, 6000))]
    ctx.judge("T_Sets", ctx.drive("sets", small))
    ctx.assumptions += ["JSON records", "a set isn't cycled while another cycle over it is under way"]
