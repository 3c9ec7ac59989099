"""C06 one by-partitioning is read, and each of its folders with its own frame"""
from checks.layouts import DAYS, STAMPS, TPL, Layout

# names which are the start of, or contain, one another
FIELDS = [("user", "username"), ("hour", "hour_of"), ("id", "user_id"), ("a", "aa"), ("name", "user name"), ("x", "y")]
VALUES = [("1", "10"), ("a", "ab"), ("ab", "b"), ("01", "1"), ("3", "33"), ("x", "y"), ("new", "new york"), ("A", "a")]
FMT = {"by_a": 0, "by_b": 1}


def place(L, folder, key, objs, fields, values, stamps):
    rng = L.rng
    for o in sorted(objs, key=str):
        by = part = ""
        if o["by"]:
            fld = fields[FMT.get(o["by"], 0)]
            by = "by_" + fld
            part = f"{fld}={values[int(o['part']) - 1]}"
        f = o["frame"]
        L.put(folder, by=by, part=part, frame=stamps[f - 1] if f else "", kind=o["kind"], key=key, rank=f,
              sub=rng.choice(["", "", "sub"]) if o["kind"] == "data" and by else "")


def random_objs(rng):
    objs = []
    for b in rng.choice([["by_a"], ["by_b"], ["by_a", "by_b"]]):
        for p in rng.sample(["1", "2"], rng.choice([1, 2])):
            frames = rng.choice([[0], [1], [1, 2], [1, 2, 3]])
            for f in frames:
                for i in range(rng.choice([1, 2, 0])):
                    objs.append(dict(by=b, part=p, frame=f, kind="data", i=i))
                if f and rng.random() < 0.65:
                    objs.append(dict(by=b, part=p, frame=f, kind="complete"))
                if f and rng.random() < 0.2:
                    objs.append(dict(by=b, part=p, frame=f, kind="ignore"))
                if rng.random() < 0.08:
                    objs.append(dict(by=b, part=p, frame=f, kind="backout"))
    if rng.random() < 0.2:
        objs.append(dict(by="", part="", frame=0, kind="data"))
    return objs


def run(ctx):
    rng = ctx.rng
    full = {} if ctx.thorough else {"States": '{"none", "open", "done"}'}
    ctx.mc("MC_By", over=full)
    ctx.mc("MC_By", over={"Frs": "{0, 1}", **full})
    ctx.mc_broken("MC_By", [("nofilter", "Agree"), ("sharedframe", "Agree"), ("mixed", "Agree")])
    gen = ctx.gen("MC_By", over={"INVARIANT": "Emit", "States": '{"none", "open", "done"}'}, limit=ctx.n(900, 8000))
    gen += ctx.gen("MC_By", over={"INVARIANT": "Emit", "Frs": "{0, 1}", "States": '{"none", "open", "done"}'}, limit=ctx.n(300, 3000))
    scns = []

    def scenario(objs, filt, backend):
        L = Layout(rng)
        tpl, fmt = rng.choice(TPL)
        fields, values = list(rng.choice(FIELDS)), list(rng.choice(VALUES))
        if rng.random() < 0.5:
            fields.reverse()
        if rng.random() < 0.5:
            values.reverse()
        days = sorted(rng.sample(DAYS[:3], rng.choice([1, 1, 2])))
        ds = rng.choice(["b/data", "b/data/sub", "b/by_a", "by_zz/as_at_x"])
        for n, day in enumerate(days):
            place(L, ds + "/" + fmt.format(*day.split("-")), day, objs if n == 0 else random_objs(rng), fields, values, sorted(rng.sample(STAMPS, 4)))
        r = dict(dataset=ds, partitions=tpl, start_date=days[0], end_date=days[-1])
        jf = []
        if filt:
            fld = fields[FMT[filt[0]]] if filt[0] in FMT else rng.choice(["other", "e", "use"])
            val = values[int(filt[1]) - 1] if rng.random() < 0.85 else rng.choice(["zz", "0"])
            if val.isdigit() and val[0] != "0" and rng.random() < 0.3:
                val = int(val)
            r["partition_filter"] = [fld, rng.choice(["=", "=="]), val]
            jf = ["by_" + fld, f"{fld}={val}"]
        return L.scenario(r, backend, keys=days, filter=jf, kind="filter" if filt else "by")

    for i, g in enumerate(gen):
        scns.append(scenario(g["o"], g["filter"], "disk" if i % 4 == 0 else "mem"))
    for i in range(ctx.n(600, 9000)):
        scns.append(scenario(random_objs(rng), rng.choice([None, ["by_a", "1"], ["by_b", "2"], ["by_c", "1"]]), "disk" if i % 4 == 0 else "mem"))
    cases = ctx.drive("layout", scns)
    ctx.judge("T_Frames", cases)
    ctx.assumptions.append("which of several partitionings is read is left open")
