"""C13 only idle writers and least recently used writers over capacity are closed"""
from checks import stream_scn as S


def replay(rng, h, idle, cap):
    """a history of the model, on the real writer: a round is 100ms, a unit of the model 10ms"""
    ops, n, spent = [dict(op="sleep", s=0.001)], 0, 1
    for x in h:
        if x == "-":
            ops.append(dict(op="sleep", s=(100 - spent + 1) / 1000))
            spent = 1
        else:
            ops.append(dict(op="app", w=0, r={"i": 2000 + n, "k": x, "p": ""}))
            n += 1
            ops.append(dict(op="sleep", s=0.010))
            spent += 10
    ops.append(dict(op="sleep", s=rng.choice([0.001, 0.01, 0.2, 0.5])))
    return dict(seed=1, policy="coarse", kind="model", calm=1, threads=[ops],
                writers=[dict(dataset="b/set/{k}", fmt=rng.choice(["jsonl", "zstd"]), idle=idle, cap=cap, blob_size=rng.choice([None, None, 1, 40]))])


def run(ctx):
    big = {"MaxRounds": 6, "MaxBurst": 4} if ctx.thorough else {}
    for cap in (1, 2, 3):
        ctx.mc("MC_Pool", over={"Cap": cap, **big})
    ctx.mc_broken("MC_Pool", ["mru", "loose", ("negslice", "Contract", {"Cap": 3}), "half", ("uncapped", "Contract", {"Cap": 1}), "created", "always_new"],
                  over={"Cap": 2}, invariant="Contract")
    scns = []
    for cap in (1, 2, 3):
        for idle in (5, 15, 25):
            for h in ctx.gen("MC_Pool", over={"Cap": cap, "Idle": idle, "MaxRounds": 6, "MaxBurst": 3, "VIEW": "", "INVARIANT": "Emit"},
                             simulate=ctx.n(120, 2000), depth=30):
                scns.append(replay(ctx.rng, h, idle / 100, cap))
    scns += [S.pool(ctx.rng) for _ in range(ctx.n(400, 6000))]
    cases = ctx.drive("stream", scns)
    ctx.judge("T_Pool", cases)
    ctx.extra["passes"] = sum(1 for c in cases if c["obs"] for e in c["obs"]["ev"] if e["e"] == "pass")
    ctx.assumptions += ["time is virtual and stands still during a pass", "a writer idle for exactly the limit may be closed or kept"]
