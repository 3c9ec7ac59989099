"""C26 every supported format is decoded fully, and a bad file only affects itself"""
from checks import writer_scn as W

TEXTS = [t for t in W.TEXTS if "\x00" not in t]
# what can be the text of an element
MARKED = [t for t in TEXTS if t and t == t.strip() and all(c >= " " and not 0xD800 <= ord(c) < 0xE000 and ord(c) not in (0xFFFE, 0xFFFF) for c in t)]
UNKNOWN = ["bin", "gz", "JSONL", "tmp", "jsonl2", "orc", "x"]
JUNK = ["{nonsense", "{\"a\":", "\xff\xfe", "", "nul", "{'a': 1}", "[1,", "\x00", "{\"a\": 1} {\"b\": 2}"]
KIND = {"lines": ["jsonl", "lxml"], "whole": ["json", "parquet", "csv", "xml"], "stream": ["zstd", "lzma"], "unknown": ["unknown"], "control": ["control"]}


class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def json(self):
        self.n += 1
        r = W.json_record(self.rng, self.n)
        r["#"] = self.n
        return r

    def table(self, k, rng):
        cols = rng.sample(["v", "n", "d", "t", "l", "b"], rng.choice([1, 3, 6]))
        rows = []
        for _ in range(k):
            self.n += 1
            r = {"#": self.n}
            for c in cols:
                r[c] = None if rng.random() < 0.2 else {
                    "v": lambda: rng.choice(TEXTS), "n": lambda: rng.choice([0, -1, 2**62, 7]), "d": lambda: rng.choice([0.1, -2.5, 1e300]),
                    "t": lambda: {"$dt": "2024-02-29T23:59:59.000001"}, "l": lambda: [rng.choice(TEXTS) for _ in range(rng.choice([1, 2]))],
                    "b": lambda: rng.random() < 0.5}[c]()
            rows.append(r)
        for c in cols:  # a column of nulls has no type
            if rows and all(r[c] is None for r in rows):
                for r in rows:
                    r.pop(c)
        return rows

    def file(self, fmt, k=None, damage="", n=None, zips=2):
        """a file (without a name) and its extension"""
        rng = self.rng
        k = rng.choice([0, 1, 2, 3, 8]) if k is None else k
        form = {}
        f = dict(fmt=fmt, form=form, damage=damage, n=rng.randrange(k + 1) if n is None else n)
        if fmt in ("jsonl", "zstd", "lzma"):
            form.update(crlf=int(rng.random() < 0.2), open=int(rng.random() < 0.3), space=int(rng.random() < 0.2), ascii=int(rng.random() < 0.5),
                        tight=int(rng.random() < 0.3), frames=rng.choice([1, 1, 1, 2, 4]), level=rng.choice([1, 3, 19]), nosize=int(rng.random() < 0.3),
                        junk=rng.choice([j for j in JUNK if j]))
            f["recs"] = [self.json() for _ in range(k)]
            if damage == "cut" and k == 0:
                f["damage"] = ""
            f["n"] = min(f["n"], max(0, k - 1)) if damage == "cut" else f["n"]
        elif fmt == "csv":
            cols = ["#"] + rng.sample(["a", "b c", "\u00e9", "x,y", "q\"", "Z"], rng.choice([1, 2, 4]))
            form.update(cols=cols, crlf=int(rng.random() < 0.3), quote=int(rng.random() < 0.3), open=int(rng.random() < 0.3))
            recs = []
            for _ in range(k):
                self.n += 1
                recs.append({c: str(self.n) if c == "#" else rng.choice(TEXTS) for c in cols})
            f["recs"] = recs
        elif fmt in ("xml", "lxml"):
            form.update(crlf=int(rng.random() < 0.2), open=int(rng.random() < 0.3))
            recs = []
            for _ in range(k if fmt == "lxml" else 1):
                self.n += 1
                recs.append({"r": {"n": str(self.n), "v": rng.choice(MARKED)}})
            f["recs"] = recs
        elif fmt == "json":
            form["indent"] = rng.choice([None, 2])
            f["recs"] = [rng.choice([self.json(), self.json(), [1, self.json()], {}])]
        elif fmt == "txt":
            self.n += 1
            form["text"] = rng.choice(["\n".join([str(self.n)] + TEXTS), f"one {self.n}", f"a\nb {self.n}\n"])
            f["damage"] = damage if damage in ("", "fetch") else ""
        elif fmt == "parquet":
            form.update(group=rng.choice([1, 2, 1000]), codec=rng.choice(["snappy", "zstd", "none"]))
            f["recs"] = self.table(max(k, 1), rng)
        elif fmt == "zip":
            form["deflate"] = int(rng.random() < 0.6)
            members, names = [], rng.sample(["a", "b", "dir/c", "d e", "z", "a.b", "c.jsonl", "e.x/f", ".g", "2024.01.02.bin"], rng.choice([0, 1, 2, 3]))
            if rng.random() < 0.2:
                members.append(dict(dir=1, name="dir"))
            for i, nm in enumerate(names):
                mf = rng.choice(["jsonl", "jsonl", "csv", "parquet", "zstd", "lzma", "json", "txt", "xml", "lxml", "unknown", "control"] + (["zip"] if zips else []))
                m = self.named(mf, nm, damage="bad" if rng.random() < 0.1 and mf == "jsonl" else "", zips=zips - 1)
                members.append(m)
            f["members"] = members
        if damage == "fetch":
            f["exc"] = rng.choice(["store", "os", "key", "time", "value", "odd", "stop"])
        return f

    def named(self, fmt, name, ext=None, **kw):
        f = self.file(fmt, **kw)
        if fmt == "unknown":
            ext = self.rng.choice(UNKNOWN)
        elif fmt == "control":
            ext = self.rng.choice(["complete", "ignore", "manifest", "idx"])
        f["name"] = name + "." + (ext or fmt)
        return f


def damage_for(rng, fmt):
    if rng.random() < 0.6:
        return ""
    return rng.choice({"jsonl": ["bad", "cut", "empty", "fetch"], "zstd": ["bad", "cut", "flip", "empty", "fetch"], "lzma": ["bad", "cut", "flip", "empty", "fetch"],
                       "csv": ["bad", "fetch"], "xml": ["bad", "fetch", "empty"], "lxml": ["bad", "fetch", "empty"], "json": ["bad", "fetch", "empty"], "txt": ["fetch"], "parquet": ["bad", "fetch", "empty"],
                       "zip": ["bad", "fetch", "empty"]}.get(fmt, [""]))


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Formats", over=dict(NFiles=3) if ctx.thorough else None)
    ctx.mc_broken("MC_Formats", ["unknown", "stopall", "last", "skip", "again"], invariant="Contract", over={"MaxUnits": 2})
    scns = []

    def names(k, depth=True):
        out = [f"{rng.randrange(16**4):04x}-{i}" for i in range(k)]
        return [rng.choice(["", "", "", "sub/"]) + x for x in out] if depth else out

    for g in ctx.gen("MC_Formats", over={"INVARIANT": "Emit"}):
        G, files = Gen(rng), []
        for fl, nm in zip(g["files"], sorted(names(len(g["files"]), False))):
            fmt = rng.choice(KIND[fl["kind"]])
            u = fl["units"]
            bad = [i for i, x in enumerate(u) if x == "bad"]
            if not fl["fetch"]:
                dmg = "fetch"
            elif bad:
                dmg = "bad" if fmt in ("jsonl", "csv", "json", "parquet", "xml", "lxml") else rng.choice(["cut", "flip", "bad"])
            else:
                dmg = ""
            files.append(G.named(fmt, nm, k=len(u) - len(bad), damage=dmg, n=bad[0] if bad else 0))
        scns.append(dict(kind="generated", backend="mem", files=files))
    for i in range(ctx.n(1200, 20000)):
        G, files = Gen(rng), []
        k = rng.choice([1, 2, 3, 5])
        over = rng.choice([None] * 3 + ["jsonl", "zstd", "lzma", "parquet", "csv", "json", "txt", "xml", "lxml", "zip"])
        fetch = i % 4 != 0
        for nm in names(k):
            fmt = over or rng.choice(["jsonl", "zstd", "lzma", "parquet", "csv", "json", "txt", "xml", "lxml", "zip", "unknown", "control"])
            dmg = damage_for(rng, fmt)
            if dmg == "fetch" and not fetch:
                dmg = ""
            ext = rng.choice(["jsonl", "zstd", "lzma", "parquet", "csv", "json", "txt", "xml", "lxml", "zip"] + UNKNOWN) if over else None
            files.append(G.named(fmt, nm, ext=ext, damage=dmg))
        s = dict(kind="override" if over else "mix", backend="mem" if fetch else "disk", files=files)
        if over:
            s["override"] = rng.choice([over, "." + over, over.upper()])
        scns.append(s)
    ctx.judge("T_Formats", ctx.drive("formats", scns))
    ctx.assumptions += ["a txt file is one record, its content; a json file is one record",
                        "the files are made with Python's json, csv, lzma and zipfile, with zstandard and pyarrow",
                        "of a damaged compressed file any number of its first records may be returned"]
