"""C03 a frame is marked complete if and only if the batch succeeded"""
from checks import writer_scn as W


def run(ctx):
    ctx.mc("MC_Writer")
    ctx.mc("MC_Writer", over={"Always": True})
    ctx.mc_broken("MC_Writer", ["forget", "latefail", "markempty", "markfirst", "swallow"], over={"MaxOps": 5}, invariant="Contract")
    hists = ctx.gen("MC_Writer", over={"Lens": "{3}", "MaxOps": 4, "VIEW": "", "INVARIANT": "Emit"}, limit=ctx.n(1500, 9000))
    hists += ctx.gen("MC_Writer", over={"MaxOps": 8, "VIEW": "", "INVARIANT": "Emit"}, simulate=ctx.n(300, 5000), depth=9)
    scns = []
    for i, h in enumerate(hists):
        fmt = ["jsonl", "zstd", "parquet", "jsonl"][i % 4]
        s = W.replay(ctx.rng, h, fmt, always=ctx.rng.random() < 0.4, sized=False, backend=ctx.rng.choice(["mem", "mem", "disk"]))
        w = s["writers"][0]
        if ctx.rng.random() < 0.3:
            w["frame_id"] = "bucket/set/" + ctx.rng.choice(["year_2024/month_02/day_29", "2024/02/29"]) + "/as_at_20240229-101112"
            s["reads"] = []
        scns.append(s)
    cases = ctx.drive("writers", scns)
    ctx.judge("T_Writer", cases)
    ctx.assumptions.append("a store which fails raises and stores nothing")
