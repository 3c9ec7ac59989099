"""C02 a blob is closed as soon as it has passed the blob size, and not before"""
from checks import writer_scn as W


def run(ctx):
    ctx.mc("MC_Writer", over={"Lens": "{1, 2, 3, 4, 5, 6}", "Allow": '{"invalid", "fault"}', "MaxOps": 5})
    ctx.mc_broken("MC_Writer", ["offbyone", "dropinflight", "keepold"], over={"MaxOps": 5}, invariant="Contract")
    # every sequence of sizes up to twice the limit
    hists = ctx.gen("MC_Writer", over={"Lens": "{1, 2, 3, 4, 5, 8}", "MaxOps": 5, "Allow": "{}", "VIEW": "", "INVARIANT": "Emit"},
                    limit=ctx.n(1200, 8000))
    hists += ctx.gen("MC_Writer", over={"Lens": "{1, 2, 3, 5}", "MaxOps": 12, "Allow": '{"invalid"}', "VIEW": "", "INVARIANT": "Emit"},
                     simulate=ctx.n(300, 4000), depth=13)
    scns = []
    for i, h in enumerate(hists):
        h = h + [{"op": "fin", "f": 0, "d": 0, "m": 0, "valid": 1}]
        fmt = ["jsonl", "text", "flat", "zstd"][i % 4]
        scns.append(W.replay(ctx.rng, h, fmt, kind=ctx.rng.choice(["plain", "batch"]), backend=ctx.rng.choice(["mem", "mem", "disk"])))
    # uneven sizes: one byte around the limit
    for _ in range(ctx.n(400, 6000)):
        fmt = ctx.rng.choice(["jsonl", "text", "flat", "zstd"])
        lens, total, limit = [], 0, ctx.rng.choice([60, 100, 1000])
        for _ in range(ctx.rng.randrange(1, 16)):
            room = limit - total
            x = ctx.rng.choice([20, 24, room - 1, room, room + 1, limit, limit + 1, 3 * limit])
            x = max(20, x)
            total = x if total > limit else total + x
            lens.append({"op": "app", "len": x, "valid": 1, "d": 0})
        s = W.replay(ctx.rng, lens + [{"op": "fin", "f": 0, "d": 0, "m": 0, "valid": 1}], fmt, unit=1, limit=limit, kind="plain")
        s["kind"] = "edge-" + fmt
        scns.append(s)
    cases = ctx.drive("writers", scns)
    ctx.judge("T_Writer", cases)
