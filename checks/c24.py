"""C24 a Reader refuses unknown, missing and conflicting parameters"""
VALUES = {
    "cursor": ([{"map": "0", "partition": "p", "location": 1}, '{"partition": "p", "location": 1}'], [None, "", {}]),
    "dataset": (["a/b"], [""]),
    "freshness_limit": (["1d", "6h30m"], ["", "0d"]),
    "raw_path": ([True, "TRUE", 1], [False, None]),
    "select": (["*", "f", "f, g AS h"], []),
    "filters": (["f = 1", [["f", "=", 1]]], [None]),
    "persistence": ([1], []),
    "override_format": (["jsonl", "text"], [None, ""]),
    "multiprocess": ([True], [False, None]),
    "valid_dataset_prefixes": ([["a"], ["b", "a/"]], [None, []]),
    "partitions": ([["year_{yyyy}"], ["year_{yyyy}/month_{mm}", "x"]], [None, []]),
    "partition_filter": ([["f", "=", 1]], [None]),
    "project": (["f", True], [None, False]),
    "start_date": ([1, 2], [0]),
    "end_date": ([1, 2], [0]),
}
DATES = {0: [None, ""], 1: ["2024-02-29", {"$d": "2024-02-29"}, {"$dt": "2024-02-29T00:00:00"}], 2: ["2024-03-01", {"$d": "2024-03-01"}]}
ODD = ["filter", "datasets", "Dataset", "persistance", "limit", "freshness", "partition", "data", "extra", "end_point", "cursors", "raw-path", "rawpath", "inner", "where"]
READERS = [([], []), ([], []), (["data"], ["data"]), (["extra"], []), (["end_point", "extra"], ["end_point"]), (["a", "b", "c"], ["a", "b"])]


def call(rng, given, true, more, needs):
    c = dict(given={}, more=more, needs=needs, start=0, end=0)
    for n in given:
        if n not in VALUES:
            c["given"][n] = rng.choice([1, "x", None, [1]])
            continue
        yes, no = VALUES[n]
        if n == "dataset" and "valid_dataset_prefixes" in true:
            true = true | {n}
        v = rng.choice(yes if n in true or not no else no)
        if n in ("start_date", "end_date"):
            c[n.split("_")[0]] = v
            v = rng.choice(DATES[v])
        c["given"][n] = v
    # "0d" is no limit although it is a value
    if c["given"].get("freshness_limit") == "0d" and c["start"] != c["end"]:
        c["given"]["freshness_limit"] = ""
    c["full"] = rng.random() < 0.3
    c["given"] = dict(rng.sample(list(c["given"].items()), len(c["given"])))
    if "dataset" in given and c["given"]["dataset"] and rng.random() < 0.15 and not (set(given) & {"select", "filters"}):
        c["sql"] = True
    return c


def anycall(rng):
    names = [n for n in VALUES if n != "dataset"]
    given = rng.sample(names, rng.choice([0, 1, 2, 3, 4, 6, len(names)]))
    if rng.random() < 0.9:
        given.append("dataset")
    if rng.random() < 0.15:
        given.append(rng.choice(ODD))
    more, needs = rng.choice(READERS)
    for n in more:
        if rng.random() < 0.85 and n not in given:
            given.append(n)
    p = rng.choice([0, 0.4, 1])
    return call(rng, given, {n for n in given if rng.random() < p}, more, needs)


def run(ctx):
    ctx.mc("MC_Params")
    ctx.mc("MC_Params", over={"Params1": '{"dataset", "raw_path", "partitions"}' if ctx.thorough else '{"dataset", "raw_path"}', "MaxCalls": 2})
    ctx.mc_broken("MC_Params", ["anyvalue", "firstonly", "unknown", "missing"], invariant="Contract")
    ctx.mc_broken("MC_Params", ["leak"], over={"Params1": '{"dataset"}', "MaxCalls": 2}, invariant="Contract")
    hs = ctx.gen("MC_Params", over={"INVARIANT": "Emit"})
    calls = [call(ctx.rng, h[0]["given"], set(h[0]["true"]) - {"dataset"} | ({"dataset"} if ctx.rng.random() < 0.9 else set()), h[0]["more"], h[0]["needs"]) for h in hs]
    calls += [anycall(ctx.rng) for _ in range(ctx.n(6000, 80000))]
    ctx.rng.shuffle(calls)
    ctx.judge("T_Params", ctx.drive("params", [dict(calls=calls[i:i + 6]) for i in range(0, len(calls), 6)]))
    ctx.assumptions += ["an inner reader is given"]
