"""C05 the Reader serves exactly the newest complete, not ignored frame"""
from checks.layouts import DAYS, STAMPS, TPL, Layout


def place(L, folder, key, objs, stamps):
    rng = L.rng
    for o in sorted(objs, key=str):
        f = o["frame"]
        L.put(folder, frame=stamps[f - 1] if f else "", kind=o["kind"], key=key, rank=f,
              sub=rng.choice(["", "", "sub", "deep/er"]) if o["kind"] == "data" else "")


def random_folder(rng):
    objs = []
    for f in range(rng.choice([0, 1, 2, 3, 5])):
        for i in range(rng.choice([0, 1, 2, 4])):
            objs.append(dict(frame=f + 1, kind="data", i=i))
        if rng.random() < 0.6:
            objs.append(dict(frame=f + 1, kind="complete"))
        if rng.random() < 0.25:
            objs.append(dict(frame=f + 1, kind="ignore"))
        if rng.random() < 0.1:
            objs.append(dict(frame=f + 1, kind="backout"))
        if rng.random() < 0.1:
            objs.append(dict(frame=f + 1, kind="other"))
    for i in range(rng.choice([0, 0, 1, 3])):
        objs.append(dict(frame=0, kind="data", i=i))
    if rng.random() < 0.2:
        objs.append(dict(frame=0, kind=rng.choice(["backout", "complete", "ignore", "other"])))
    return objs


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Frames", over={"MaxData": 1})
    ctx.mc_broken("MC_Frames", ["anycomplete", "noignore", "onestep", "backout", "fallback", "plainlater"], over={"MaxFrames": 2, "MaxData": 1}, invariant="Agree")
    layouts = ctx.gen("MC_Frames", over={"MaxData": 1, "Plain": False, "INVARIANT": "Emit"})
    layouts += ctx.gen("MC_Frames", over={"MaxFrames": 2, "MaxData": 2, "INVARIANT": "Emit"})
    if not ctx.thorough and len(layouts) > 1200:
        layouts = rng.sample(layouts, 1200)
    scns = []

    def scenario(folders, backend, hourly=False):
        L = Layout(rng)
        tpl, fmt = rng.choice(TPL)
        days = sorted(rng.sample(DAYS[:3], len(folders))) if len(folders) <= 3 else DAYS[:3]
        ds = rng.choice(["b/data", "b/data/sub", "bucket/a_b", rng.choice(["b/as_at_home", "b/by_team/data", "by_x/data", "as_at_20240101-000000/d"])])
        if hourly:
            tpl, fmt = [tpl[0] + "/hour_{HH}"], fmt + "/hour_09"
        for day, objs in zip(days, folders):
            stamps = sorted(rng.sample(STAMPS, 5))
            place(L, ds + "/" + fmt.format(*day.split("-")), day, objs, stamps)
        # neighbours which are out of range, or not this dataset
        if rng.random() < 0.5:
            for d, folder in ((ds, "2022-01-01"), (ds + "2", days[0]), (ds + "_old", days[0])):
                L.put(d + "/" + fmt.format(*folder.split("-")), kind="data", key=None, count=1)
        r = dict(dataset=ds, partitions=tpl, start_date=days[0], end_date=days[-1])
        if hourly:
            r.update(start_date={"$dt": days[0] + "T09:00:00"}, end_date={"$dt": days[-1] + "T09:00:00"})
        return L.scenario(r, backend, keys=days, kind="hourly" if hourly else "folders")

    for i, objs in enumerate(layouts):
        scns.append(scenario([objs], "disk" if i % 3 == 0 else "mem", hourly=i % 7 == 0))
    for i in range(ctx.n(500, 8000)):
        scns.append(scenario([random_folder(rng) for _ in range(rng.choice([1, 2, 3]))], "disk" if i % 3 == 0 else "mem"))
    cases = ctx.drive("layout", scns)
    ctx.judge("T_Frames", cases)
    ctx.assumptions.append("frame names are the fixed width names BatchWriter makes (as_at_YYYYMMDD-HHMMSS)")
