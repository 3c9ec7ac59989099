"""C11 a StreamWriter loses, repeats and mixes nothing under any thread interleaving"""
from checks import stream_scn as S


def run(ctx):
    ctx.mc("MC_Stream", over={"MaxFails": 0, "MaxPass": 3} if ctx.thorough else {"MaxFails": 0})
    ctx.mc_broken("MC_Stream", ["openappend", "openevict", "openfinalize"], over={"MaxFails": 0}, invariant="Contract")
    scns = [S.session(ctx.rng) for _ in range(ctx.n(500, 8000))]
    cases = ctx.drive("stream", scns)
    ctx.extra["scheduling_steps"] = sum(c["obs"]["steps"] for c in cases if c["obs"])
    ctx.judge("T_Stream", cases)
    ctx.assumptions += ["threads switch between the lines of the writers' code, at locks, sleeps and store calls (not within a line)",
                        "an append which is under way when finalize is called may be stored by it or by the next finalize"]
