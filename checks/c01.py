"""C01 written records are read back exactly once, unchanged and in order"""
from checks import writer_scn as W


def run(ctx):
    ctx.mc("MC_Writer")
    ctx.mc("MC_Writer", over={"Parquet": True, "Always": True})
    ctx.mc_broken("MC_Writer", ["dropinflight", "keepold", "clearfirst"], over={"MaxOps": 5}, invariant="Contract")
    scns = [W.session(ctx.rng) for _ in range(ctx.n(900, 12000))]
    cases = ctx.drive("writers", scns)
    frames = [W.frames(ctx.rng) for _ in range(ctx.n(200, 3000))]
    cases += ctx.drive("writers", frames, env={"VERIF_CLOCK": "1"})
    ctx.judge("T_Writer", cases)
    ctx.assumptions += ["the stored form of a record is decoded independently of mabel (orjson/pyarrow/zstandard are trusted)",
                        "storage is an in-memory stand-in or the local disk adapter"]
