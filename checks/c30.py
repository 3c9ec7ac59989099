"""C30 a text table shows each value under its own column"""
from checks import c25


def run(ctx):
    ctx.mc("MC_Ascii")
    ctx.mc_broken("MC_Ascii", ["order", "narrow", "limit"], invariant="Contract")
    scns = []
    for g in ctx.gen("MC_Ascii", over={"INVARIANT": "Emit"}, limit=ctx.n(1500, 4000)):
        recs = [[["".join(map(chr, c)), c25.plain(v)] for c, v in r] for r in g["recs"]]
        scns.append(dict(kind="ascii", recs=recs, limit=g["limit"], via=ctx.rng.choice(["list", "gen", "dictset"]), lazy=0))
    scns += c25.scenarios(ctx.rng, ctx.n(1500, 20000), "ascii")
    ctx.judge("T_Display", ctx.drive("display", scns))
    ctx.assumptions += ["texts have no new lines", "every character is as wide as any other, and spaces around a text don't count"]
