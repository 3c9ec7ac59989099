"""Layouts of folders, for C05 and C06 (and others)"""

EXTS = [".jsonl", ".jsonl", ".jsonl.zstd", ".parquet"]
# within names of data files: these are nothing special
ODD = [".complete", "-frame.complete", ".ignore", "-frame.ignore", ".frame", " a", "=1", "by_a", "year_2024", ".jsonl", ".gz", ".json", "-BACKOUT", "as_at_1"]
STAMPS = ["as_at_20231231-235959", "as_at_20240101-000000", "as_at_20240229-093000", "as_at_20240229-093001",
          "as_at_20240229-100000", "as_at_20240301-000000", "as_at_20250101-120000"]
DAYS = ["2024-02-28", "2024-02-29", "2024-03-01", "2023-12-31", "2024-01-01", "2024-01-02"]
TPL = [(["year_{yyyy}/month_{mm}/day_{dd}"], "year_{}/month_{}/day_{}"), (["{yyyy}/{mm}/{dd}"], "{}/{}/{}"), (["date_{yyyy}-{mm}-{dd}"], "date_{}-{}-{}")]


class Layout:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.objects = []
        self.folders = {}

    def ids(self, k):
        self.n += k
        return list(range(self.n - k + 1, self.n + 1))

    def put(self, folder, by="", part="", frame="", kind="data", sub="", key=None, rank=0, count=None):
        """an object in a date folder; key names the folder for the judge (None: out of the range)"""
        rng = self.rng
        path = [folder]
        if by:
            path += [by, part]
        if frame:
            path.append(frame)
        if kind == "backout":
            path.append("BACKOUT")
        if sub:
            path.append(sub)
        recs = []
        if kind in ("complete", "ignore"):
            name = "frame." + kind
        elif kind == "other":
            name = rng.choice(["readme.md", "notes", "data.tmp", "x.jsonl.bak", "a.idx"] + ([] if frame else ["frame.complete", "frame.ignore"]))
        else:
            recs = self.ids(rng.choice([1, 1, 2, 0]) if count is None else count)
            odd = rng.choice(ODD) if rng.random() < 0.2 else ""
            name = f"{rng.randrange(16**6):06x}-{self.n:x}-{len(self.objects):x}" + odd + rng.choice(EXTS)
        o = dict(path="/".join(path + [name]), recs=recs)
        if kind in ("complete", "ignore", "other"):
            o["raw"] = ""
        self.objects.append(o)
        if key is not None:
            self.folders.setdefault(key, []).append(dict(by=by, part=part, frame=rank, kind=kind, recs=recs))
        else:
            pass

    def scenario(self, reader, backend, filter=(), keys=(), kind="layout", clock=None):
        folders = [self.folders.get(k, []) for k in keys] or list(self.folders.values())
        s = dict(kind=kind, objects=self.objects, backend=backend, reader=reader,
                 judge=dict(folders=[f for f in folders if f] or [[dict(by="", part="", frame=0, kind="other", recs=[])]], filter=list(filter)))
        if clock:
            s["clock"] = clock
        return s
