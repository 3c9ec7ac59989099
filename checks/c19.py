"""C19 DictSet operations compute their relational meaning"""
from checks import wide
from checks.values import TEXTS

NUMS = [0, 1, -1, 2, 3, 0.5, -2.25, 10, 100, 2.0, 1.0]
TX = [t for t in TEXTS if "'" not in t] + ["1", "None", "b\u00e9"]
COLS = {"n": "num", "m": "whole", "t": "text", "b": "bool", "u": "text", "two words": "num"}


def value(rng, kind, pools):
    return rng.random() < 0.5 if kind == "bool" else rng.choice(pools[kind])


def rows_for(rng, n, full=False):
    pools = dict(num=rng.sample(NUMS, rng.choice([2, 4, 9])), whole=rng.sample([0, 1, -1, 2, 5], rng.choice([2, 5])),
                 text=rng.sample(TX, rng.choice([2, 4, 10])))
    cols = rng.sample(list(COLS), rng.choice([1, 2, 3, 6]))
    rows = []
    for _ in range(n):
        if rows and rng.random() < 0.25:
            r = dict(rng.choice(rows))
        else:
            r = {}
            for c in cols:
                x = rng.random()
                if full or x > 0.2:
                    r[c] = value(rng, COLS[c], pools)
                elif x < 0.1:
                    r[c] = None
        rows.append(dict(rng.sample(list(r.items()), len(r))))
    return rows, cols, pools


def step(rng, cols, pools):
    k = rng.choice(["select", "filter", "filter", "distinct", "distinct", "take", "all"])
    anyc = cols + ["zz"]
    if k == "select":
        cs = rng.sample(anyc, rng.randrange(1, len(anyc) + 1))
        return dict(k=k, cols=cs, how=rng.choice(["list", "tuple", "set", "project", "item"] + (["one"] if len(cs) == 1 else [])))
    if k == "filter":
        f = rng.choice(cols)
        c = rng.choice(["=", "<>"] if COLS[f] == "bool" else ["=", "<>", "<", "<=", ">", ">="])
        v = value(rng, COLS[f], pools)
        how = ["func", "func", "dnf", "tuple"]
        # as text, texts which look like something else are something else
        if COLS[f] != "text":
            how.append("text")
        return dict(k=k, f=f, c=c, v=v, how=rng.choice(how))
    if k == "distinct":
        return dict(k=k, cols=rng.sample(anyc, rng.choice([0, 0, 1, 2, len(anyc)]) if len(anyc) > 1 else 0))
    if k == "take":
        return dict(k=k, n=rng.choice([0, 1, 2, 3, 5, 50]))
    return dict(k="all", how=rng.choice(["star", "list", "more"]))


ENDS = ["list"] * 6 + ["column", "column", "keys", "count", "first", "min", "max", "min_max", "sum", "mean", "variance", "deviation", "pandas", "sort", "sort", "sort", "items", "sample", "hash", "sets", "sets", "types"]

NUMERIC = ["min", "max", "min_max", "sum", "mean", "variance", "deviation"]


def end(rng, cols, pools, n, full, store, chained, k=None):
    k = k or rng.choice(ENDS)
    f = rng.choice(cols)
    numeric = [c for c in cols if COLS[c] in ("num", "whole")]
    if k in ("min", "max", "min_max", "sum", "mean") and (not full or chained or not numeric or not n):
        k = "list"
    if k in ("min", "max", "min_max", "sum", "mean"):
        return dict(k=k, f=rng.choice(numeric))
    if k in ("variance", "deviation"):
        whole = [c for c in cols if COLS[c] == "whole"]
        return dict(k=k, f=rng.choice(whole)) if full and not chained and whole and 1 < n < 20 else dict(k="first")
    if k == "pandas":
        return dict(k=k)
    if k == "list":
        return dict(k=k, how=rng.choice(["collect", "itake", "iter", "next"]))
    if k == "column":
        return dict(k=k, f=rng.choice(cols + ["zz"]))
    if k == "keys":
        return dict(k=k, n=rng.choice([0, 0, 1, 2, 5]))
    if k == "count":
        return dict(k=k, maybe=int(store in ("gen", "list") and (chained or store == "gen")))
    if k == "first":
        return dict(k=k)
    if k == "sort":
        if rng.random() < 0.1:
            return dict(k=k, f=f, n=5000, desc=0, how="default")
        return dict(k=k, f=rng.choice(cols + ["zz"]), n=rng.choice([0, 1, 1, 2, 3, 4, 50]), desc=int(rng.random() < 0.5), how="full")
    if k == "items":
        if chained or not n:
            return dict(k="first")
        at = rng.sample(range(n), rng.randrange(1, n + 1))
        return dict(k=k, at=at if rng.random() < 0.4 else sorted(at))
    if k == "sample":
        return dict(k=k, p=rng.choice([1.0, 0.5, 0.34]))
    if k == "hash":
        return dict(k=k, seed=rng.randrange(1000)) if n and not chained else dict(k="first")
    if k == "sets":
        if chained or store == "list":
            store_ok = chained
            if not store_ok:
                return dict(k="first")
        return dict(k=k, f=rng.choice(cols + ["zz"]), dedupe=int(rng.random() < 0.4))
    return dict(k="types", n=rng.choice([1, 3, 100]))


def scenario(rng, store=None, n=None):
    n = rng.choice([0, 1, 2, 4, 7, 10, 10]) if n is None else n
    full = rng.random() < 0.35
    rows, cols, pools = rows_for(rng, n, full)
    store = store or rng.choice(["list", "gen", "MEMORY", "MEMORY"])
    calls = []
    for _ in range(4):
        numeric = rng.choice(NUMERIC) if full and rng.random() < 0.4 else None
        chain = [] if numeric else [step(rng, cols, pools) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))]
        # set("*") of a whole set is the set itself
        real = [o for o in chain if not (o["k"] == "all" and o["how"] != "more")]
        calls.append(dict(chain=chain, end=end(rng, cols, pools, n, full, store, bool(real), numeric)))
    return dict(rows=rows, store=store, fresh=store == "gen", calls=calls, kind="random")


def from_model(rng, h):
    """rows and a chain of the model"""
    rows = [{k: (None if v[0] == 0 else v[1] // 1000) for k, v in r.items() if k != "_"} for r in h["rows"]]
    chain = []
    for o in h["chain"]:
        o = dict(o)
        if o["k"] == "filter":
            o["v"] = o["v"][1] // 1000
            o["how"] = rng.choice(["func", "dnf", "text"])
        if o["k"] == "select":
            o["how"] = rng.choice(["list", "tuple", "set"])
        chain.append(o)
    store = rng.choice(["list", "gen", "MEMORY"])
    calls = [dict(chain=chain, end=dict(k="list", how=rng.choice(["collect", "itake", "iter", "next"])))]
    if h.get("sort"):
        calls.append(dict(chain=chain, end=dict(k="sort", f="a", n=h["sort"][0], desc=h["sort"][1], how="full")))
    return dict(rows=rows, store=store, fresh=True, calls=calls, kind="model")


def run(ctx):
    ctx.mc("MC_Sets", over={"MaxRows": 3, "MaxChain": 2} if not ctx.thorough else {"MaxRows": 4, "MaxChain": 2})
    ctx.mc_broken("MC_Sets", ["takelate", "sharedseen", "filterlater"], over={"MaxRows": 2}, invariant="Contract")
    ctx.mc("MC_Sort", over={} if not ctx.thorough else {"MaxRows": 7})
    ctx.mc_broken("MC_Sort", ["unsorted", "smallcache", "nulls"], invariant="Contract")
    hs = ctx.gen("MC_Sets", over={"INVARIANT": "Emit", "MaxRows": 3, "MaxChain": 2}, limit=ctx.n(1500, 20000))
    ss = ctx.gen("MC_Sort", over={"INVARIANT": "Emit"}, limit=ctx.n(600, 8000))
    scns = [from_model(ctx.rng, h) for h in hs]
    scns += [from_model(ctx.rng, dict(rows=h["rows"], chain=[], sort=[h["n"], h["desc"]])) for h in ss]
    scns += [scenario(ctx.rng) for _ in range(ctx.n(1800, 25000))]
    ctx.judge("T_Sets", ctx.drive("sets", scns))
    wide.check(ctx, 0, ctx.n(150, 2500))
    ctx.assumptions += ["columns have values of one type", "minimum, maximum, sum and mean are of columns with values only"]
