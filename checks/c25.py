"""C25 data shown in an HTML table can not become markup"""
from checks import writer_scn as W

HOT = ["<script>alert(1)</script>", "'", '"', "&", "&lt;", "&amp;lt;", "' onmouseover='x", "</td>", "<!--", "]]>", "&#39;", "a&b;c", "$x", "<", ">", "'>", "%3C", "&quot", "\\'", "<\n", "=", "`",
       "title='", "&#x3c;", "\u00e9<", "\U0001f600'"]
NAMES = ["a", "b", "c d", "<b>", "'", 'x"y', "&amp;", "a.b", "", "th", "n&"]


def text(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(HOT)
    if r < 0.7:
        return "".join(rng.choice("<>&'\";#ax/= $") for _ in range(rng.randrange(12)))
    return rng.choice([t for t in W.TEXTS])


def value(rng, depth=2, html=True):
    t = text if html else (lambda r: text(r).replace("\n", " ").replace("\r", " ").strip())
    k = rng.randrange(9 if depth else 6)
    if k <= 2:
        return t(rng)
    if k == 3:
        return rng.choice([None, True, False, 0, -5, 1.5, 10**20])
    if k == 4:
        return {"$b": t(rng).encode("utf8").hex()}
    if k == 5:
        return rng.choice([{"$dt": "2024-02-29T23:59:59.000001"}, {"$d": "2024-01-01"}, {"$dec": "1.50"}, {"$set": [t(rng)]}])
    if k in (6, 7):
        return [value(rng, depth - 1, html) for _ in range(rng.randrange(4))]
    return {t(rng): value(rng, depth - 1, html) for _ in range(rng.randrange(3))}


def plain(v):
    """from the specification's values"""
    if v["k"] == "t":
        return "".join(map(chr, v["t"]))
    if v["k"] == "l":
        return [plain(x) for x in v["l"]]
    return {"".join(map(chr, k)): "".join(map(chr, x)) for k, x in v["d"]}


def scenarios(rng, n, kind):
    out = []
    for _ in range(n):
        k = rng.choice([0, 1, 2, 3, 5, 6, 8])
        pool = rng.sample(NAMES if kind == "html" else ["a", "b", "c d", "long name", "<b>", "\u00e9", "n"], rng.choice([1, 2, 3, 4]))
        recs = []
        for _ in range(k):
            cols = rng.sample(pool, rng.choice([len(pool), len(pool), rng.randrange(len(pool) + 1)]))
            recs.append([[c, value(rng, html=kind == "html")] for c in cols])
        s = dict(kind=kind, recs=recs, limit=rng.choice([0, 1, 2, 3, 5, 7, 100]), via=rng.choice(["list", "gen", "dictset"]), lazy=int(rng.random() < 0.5))
        if rng.random() < 0.15:
            s.update(default=1, limit=5)
        out.append(s)
    return out


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Display", over=dict(MaxLen=3) if ctx.thorough else None)
    ctx.mc("MC_Display", over=dict(MaxLen=1, NRecs=2))
    ctx.mc("MC_Display", over={"MaxLen": 5 if ctx.thorough else 4, "NRecs": 0, "INVARIANT": "Undone"})
    ctx.mc_broken("MC_Display", ["late", "noamp", "nosingle", "nolt", "nested", ("limit", "Contract", dict(MaxLen=0, NRecs=2))], invariant="Contract")
    scns = []
    for g in ctx.gen("MC_Display", over={"INVARIANT": "Emit"}) + ctx.gen("MC_Display", over=dict(MaxLen=1, NRecs=2, INVARIANT="Emit"), limit=ctx.n(300, 2000)):
        recs = [[["".join(map(chr, c)), plain(v)] for c, v in r] for r in g["recs"]]
        scns.append(dict(kind="html", recs=recs, limit=g["limit"], via=rng.choice(["list", "gen", "dictset"]), lazy=0))
    scns += scenarios(rng, ctx.n(1500, 20000), "html")
    ctx.judge("T_Display", ctx.drive("display", scns))
    ctx.assumptions.append("of values which are neither text nor lists nor dictionaries, and of values in dictionaries, the text is Python's")
