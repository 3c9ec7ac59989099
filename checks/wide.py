"""Large sets and numbers, for C18 and C19 (spec/Wide.tla)"""


def groups(rng):
    k = rng.choice([1, 63, 100, 1000, 4096, 9998, 9999, 10000, 10001, 16384, 20000, 65537])
    n = rng.choice([k - 1, k, k + 1, 2 * k + 3]) if k > 20000 else rng.choice([k, k + 1, 2 * k - 1, 3 * k + 2])
    return dict(kind="groups", n=max(n, 1), k=k, seed=rng.randrange(10**6), store=rng.choice(["list", "gen", "MEMORY"]))


def number(rng):
    r = rng.random()
    if r < 0.2:
        return rng.randrange(-10, 11)
    if r < 0.6:
        return rng.choice([1, -1]) * (2 ** rng.choice([30, 31, 32, 52, 53, 54, 60, 62, 63, 64, 70]) + rng.randrange(-3, 4))
    return rng.randrange(-10**18, 10**18)


def big(rng):
    vs = [[rng.randrange(3), str(number(rng))] for _ in range(rng.choice([1, 2, 3, 5, 20, 200]))]
    if rng.random() < 0.4:
        vs = [[k, v.lstrip("-")] for k, v in vs]
    return dict(kind="big", values=vs, store=rng.choice(["list", "gen", "MEMORY"]))


def check(ctx, n_groups, n_big):
    ctx.mc("MC_Wide")
    ctx.mc_broken("MC_Wide", ["floor", "carry"], over={"MaxRows": 5, "MaxGroups": 3}, invariant="Contract")
    ctx.judge("T_Wide", ctx.drive("wide", [groups(ctx.rng) for _ in range(n_groups)] + [big(ctx.rng) for _ in range(n_big)]))
