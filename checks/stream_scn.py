"""Scenarios for the StreamWriter under the deterministic scheduler (C11, C13, C14)"""


def session(rng, fails=False, writers=None):
    nw = writers or rng.choice([1, 1, 1, 2])
    ws = []
    for w in range(nw):
        fmt = rng.choice(["jsonl", "jsonl", "zstd", "parquet"])
        ws.append(dict(dataset=f"b/set{w}" + ("/{k}" if rng.random() < 0.8 else ""), fmt=fmt,
                       blob_size=rng.choice([1, 30, 60, 100, None]) if fmt != "parquet" else rng.choice([60, 200, None]),
                       idle=rng.choice([0.05, 0.1, 0.35, 5]), cap=rng.choice([1, 1, 2, 3, 10])))
    nt = rng.choice([1, 2, 2, 3, 4])
    ks = rng.choice([["a"], ["a", "b"], ["a", "b", "c", "d"], [f"k{i}" for i in range(rng.choice([9, 30]))]])
    threads = []
    for t in range(nt):
        ops = []
        for i in range(rng.choice([1, 3, 5, 8])):
            if rng.random() < 0.3:
                ops.append(dict(op="sleep", s=rng.choice([0.01, 0.1, 0.12, 0.4])))
            ops.append(dict(op="app", w=rng.randrange(nw), r={"i": (t + 2) * 1000 + i, "k": rng.choice(ks), "p": "x" * rng.choice([0, 5, 30])}))
        threads.append(ops)
    s = dict(seed=rng.randrange(10**6), policy=rng.choice(["random", "random", "pct"]), switch=rng.choice([0.02, 0.1, 0.3, 0.6]),
             writers=ws, threads=threads, early=int(rng.random() < 0.25), finals=rng.choice([1, 1, 2]), kind="session", calm=1)
    if fails:
        n = rng.choice([1, 1, 2, 3])
        s["fails"] = sorted(rng.sample(range(1, 9), n)) if rng.random() < 0.8 else list(range(1, rng.choice([4, 8, 15])))
        s["finals"] = rng.choice([1, 2, 3])
        s["calm"] = 0
        s["kind"] = "failing"
    return s


def calm(s):
    return dict(s)


def pool(rng, fails=False):
    """one thread, and time: what the background thread closes, and when"""
    idle = rng.choice([0.25, 0.55, 1.05, 2.05])
    cap = rng.choice([1, 2, 3, 4])
    ks = [f"k{i}" for i in range(rng.choice([1, 2, cap, cap + 1, 2 * cap, 3 * cap + 1, 7 * cap + 2]))]
    ops, n = [], 0
    for _ in range(rng.choice([3, 6, 12, 20])):
        burst = rng.choice([1, 1, 2, len(ks)])
        for _ in range(burst):
            ops.append(dict(op="app", w=0, r={"i": 2000 + n, "k": rng.choice(ks), "p": ""}))
            n += 1
            if rng.random() < 0.7:
                ops.append(dict(op="sleep", s=rng.choice([0.003, 0.007, 0.011])))
        ops.append(dict(op="sleep", s=rng.choice([0.031, 0.097, 0.153, 0.213, idle * 0.9, idle * 1.3])))
    s = dict(seed=1, policy="coarse", writers=[dict(dataset="b/set/{k}", fmt=rng.choice(["jsonl", "jsonl", "zstd"]), blob_size=None, idle=idle, cap=cap)],
             threads=[ops], kind="pool", calm=1)
    if fails:
        s["fails"] = sorted(rng.sample(range(1, 10), rng.choice([1, 2, 4])))
        s["calm"] = 0
        s["kind"] = "pool-failing"
        s["finals"] = rng.choice([1, 2, 3])
    return s
