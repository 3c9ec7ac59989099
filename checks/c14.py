"""C14 a failing store never silently loses or repeats acknowledged records"""
from checks import stream_scn as S
from checks import writer_scn as W


def run(ctx):
    ctx.mc("MC_Writer", over={"Batch": False})
    ctx.mc("MC_Writer", over={"Parquet": True})
    ctx.mc_broken("MC_Writer", ["clearfirst", "swallow", "dropinflight"], over={"MaxOps": 5}, invariant="Contract")
    hists = ctx.gen("MC_Writer", over={"Lens": "{5}", "MaxOps": 5, "Allow": '{"finalize", "fault"}', "VIEW": "", "INVARIANT": "Emit"},
                    limit=ctx.n(1500, 8000))
    hists += ctx.gen("MC_Writer", over={"MaxOps": 9, "VIEW": "", "INVARIANT": "Emit"}, simulate=ctx.n(300, 5000), depth=10)
    scns = []
    for i, h in enumerate(hists):
        h = h + [{"op": "fin", "f": 0, "d": 0, "m": 0, "valid": 1}]  # the store is back in the end
        fmt = ["jsonl", "zstd", "parquet", "flat", "text"][i % 5]
        scns.append(W.replay(ctx.rng, h, fmt, kind=ctx.rng.choice(["plain", "batch"]), sized=False))
    cases = ctx.drive("writers", scns)
    ctx.judge("T_Writer", cases)
    # the StreamWriter, its threads and its background maintenance
    small = {"MaxFails": 1, "MaxPass": 1}
    ctx.mc("MC_Stream", over={"MaxFails": 1, "MaxPass": 3} if ctx.thorough else small)
    ctx.mc_broken("MC_Stream", ["dropfirst", "swallow"], over=small, invariant="Contract")
    scns = [S.session(ctx.rng, fails=True) for _ in range(ctx.n(300, 6000))]
    scns += [S.pool(ctx.rng, fails=True) for _ in range(ctx.n(100, 2000))]
    cases = ctx.drive("stream", scns)
    ctx.judge("T_Stream", cases)
    ctx.assumptions.append("a store which fails raises and stores nothing")
