"""C18 Grouped aggregates equal the aggregates of each group"""

from checks import wide

FUNCS = ["COUNT", "SUM", "MIN", "MAX", "AVG"]
TEXTS = ["", "a", "ab", "b", "bc", "c", "None", "1", "'", "a', 'b", "0", "\u00e9", " "]
NUMS = [0, 0, 1, -1, 2, -2, 10, 0.5, -0.5, 7, 1000, -999, 3, 2.0, 1.0]


def agg(f, c):
    return [f, c, f"{f}({c})"]


def dec(v):
    """a value of the model as a value"""
    return None if v[0] == 0 else v[1] // 1000 if v[0] == 2 else "".join(map(chr, v[1:]))


def from_model(rng, h):
    rows = [{k: dec(v) for k, v in r.items() if k != "_" and not (v[0] == 0 and rng.random() < 0.3)} for r in h["rows"]]
    aggs = h["aggs"]
    by = rng.choice([["g", "h"], ["g", "h"], ["g"], ["h", "g"]])
    calls = [dict(chain=[], end=dict(k="group", by=by, aggs=aggs, how=rng.choice(["tuple", "list", "one"] if len(by) == 1 else ["tuple", "list"])))]
    return dict(rows=rows, store=rng.choice(["list", "gen", "MEMORY"]), fresh=True, calls=calls, kind="model")


def bigger(rng):
    cols = ["g", "h", "b", "t", "n", "m"]
    n = rng.choice([0, 1, 2, 5, 8, 12, 12])
    texts = rng.sample(TEXTS, rng.choice([2, 3, 5, len(TEXTS)]))
    nums = rng.sample(NUMS, rng.choice([1, 2, 4, len(NUMS)]))
    whole = [x for x in nums if x == int(x)] or [1]
    rows = []
    for _ in range(n):
        r = dict(g=rng.choice(texts), h=rng.choice(texts), b=rng.random() < 0.5, t=rng.choice(texts), n=rng.choice(nums), m=rng.choice(whole))
        for c in cols:
            x = rng.random()
            if x < 0.12:
                r[c] = None
            elif x < 0.22:
                del r[c]
        rows.append(dict(rng.sample(list(r.items()), len(r))))
    calls = []
    for _ in range(3):
        by = rng.sample(["g", "h", "b", "m", "zz"], rng.choice([1, 1, 2, 2, 3]))
        pool = [agg("COUNT", "*")] + [agg(f, c) for f in FUNCS for c in ("n", "m") if c not in by]
        pool += [agg(f, c) for f in ("COUNT", "MIN", "MAX") for c in ("t",)] + [agg("COUNT", "g"), agg("COUNT", "zz"), agg("MIN", "zz"), agg("AVG", "zz")]
        call = rng.choice(["aggregate"] * 5 + ["count", "min", "max", "sum", "average"])
        if call == "aggregate":
            aggs = rng.sample(pool, rng.choice([1, 2, 2, 3, 5, len(pool)]))
        elif call == "count":
            aggs = [agg("COUNT", "*")]
        else:
            f = {"min": "MIN", "max": "MAX", "sum": "SUM", "average": "AVG"}[call]
            aggs = [agg(f, c) for c in rng.sample([c for c in ("n", "m") if c not in by], 1 if "m" in by else rng.choice([1, 2]))]
        end = dict(k="group", by=by, aggs=aggs, call=call, how=rng.choice(["tuple", "list", "list"] + (["one"] if len(by) == 1 else [])))
        if rng.random() < 0.15:
            end = dict(k="groups", by=by)
        calls.append(dict(chain=[dict(k="take", n=rng.choice([1, 3, 100]))] if rng.random() < 0.2 else [], end=end))
    return dict(rows=rows, store=rng.choice(["gen", "MEMORY", "MEMORY", "DISK", "COMPRESSED_MEMORY"]), fresh=True, calls=calls, kind="random")


def run(ctx):
    ctx.mc("MC_Group", over={"MaxAggs": 3} if ctx.thorough else {})
    ctx.mc_broken("MC_Group", ["falsy", "double", "joined", "lost"], over={"MaxRows": 2}, invariant="Contract")
    hs = ctx.gen("MC_Group", over={"INVARIANT": "Emit", "MaxRows": ctx.n(2, 3)}, limit=ctx.n(2000, 40000))
    scns = [from_model(ctx.rng, h) for h in hs] + [bigger(ctx.rng) for _ in range(ctx.n(700, 12000))]
    ctx.judge("T_Sets", ctx.drive("sets", scns))
    wide.check(ctx, ctx.n(12, 150), ctx.n(100, 1500))
    ctx.assumptions += ["columns have values of one type", "sums fit 32 bits when counted in thousandths"]
