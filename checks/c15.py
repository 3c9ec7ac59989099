"""C15 a DatabaseWriter delivers every record once, in order, then finalizes once"""


def replay(h):
    """a history of the model (batches of 3) with batches of 100: the second record of a batch stands for 98"""
    ops, size, commits, finals, fails, ffails = [], 0, 0, 0, [], []
    for x in h:
        if x in "aA":
            ops.append(dict(op="app", n=98 if size == 1 else 1))
            size += 1
            if x == "A":
                commits += 1
                fails.append(commits)
            elif size >= 3:
                commits += 1
                size = 0
        elif x == "x":
            ops.append(dict(op="bad"))
        else:
            ops.append(dict(op="fin" if "fin" in x.lower() else "del"))
            if size:
                commits += 1
                if x in ("FIN", "DEL"):
                    fails.append(commits)
                    continue
                size = 0
            if x[0] == "F" and x != "FIN":
                finals += 1
                ffails.append(finals)
            else:
                finals += 1
    return dict(ops=ops, fails=fails, ffails=ffails, kind="model")


def sweep(rng):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops.append(dict(op="app", n=rng.choice([1, 2, 50, 99, 100, 101, 199, 200, 201, 250, 300, 301])))
        if rng.random() < 0.2:
            ops.append(dict(op="bad"))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ops.append(dict(op="fin"))
    ops.append(dict(op="del"))
    return dict(ops=ops, fails=sorted(rng.sample(range(1, 6), rng.choice([0, 0, 1, 2]))), ffails=rng.choice([[], [], [1], [1, 2]]), kind="sweep")


def run(ctx):
    ctx.mc("MC_Db", over={"MaxOps": 14, "MaxFails": 4} if ctx.thorough else {})
    ctx.mc_broken("MC_Db", ["gt", "clearfirst", "droplast", "swallow", "forget", "twice", "early"], invariant="Contract")
    hs = ctx.gen("MC_Db", over={"VIEW": "", "INVARIANT": "Emit", "MaxOps": 6}, limit=ctx.n(800, 20000))
    hs += ctx.gen("MC_Db", over={"VIEW": "", "INVARIANT": "Emit", "MaxOps": 14, "MaxFails": 4}, simulate=ctx.n(400, 5000), depth=16)
    scns = [replay(h) for h in hs]
    scns += [dict(ops=[dict(op="app", n=n), dict(op="fin"), dict(op="del")], fails=[], ffails=[], kind="count") for n in list(range(1, 12)) + list(range(95, 106)) + list(range(195, 206))]
    scns += [sweep(ctx.rng) for _ in range(ctx.n(200, 3000))]
    ctx.judge("T_Db", ctx.drive("db", scns))
    ctx.assumptions.append("an inner writer which fails has taken nothing of the batch")
