"""C29 select expressions compute their documented value for every row"""
TEXTS = ["", "a", "abc", "Hello World", " pad ", "\tx\n", "caf\u00e9", "\u00c9t\u00e9", "x, y", "it(s)", "a as b", "FALSE", "false", "None", "12", "2024-02-30", "true", "\u4f60\u597d", "AS", "quo\"te", "-", "\u00a0z", "(", "),"]
NUMS = ["0", "1", "-1", "12.7", "-12.75", "7.5", "007", " 5 ", "+3", "1000000.25", "0.001", "-0.5", ".5"]
DATES = ["2024-02-29", "2023-12-31T23:59:59", "2024-01-01 00:00", "2020-12-31", "2021-01-03T12:00:01", "2016-01-01", "2000-02-28", "1999-12-31", "2100-02-28T01:02:03", "1601-01-01", "2024-06-30T08:00:00Z",
         "2023-02-29", "not a date", "", "2024-13-01", "2026-12-31", "2027-01-01", "2015-12-28"]
CONST_TEXTS = ["'x'", "''", "' '", "', '", "'(a)'", "\"it's\"", "'a AS b'", "'2x'", "'\u00e9'", "'NULL'", "\",\"", "'a  b'", "')'"]
FLOATS = [0.0, 1.5, -2.25, 3.141, -0.001, 1234.567, 2.5, 3.5, -0.5, 0.1, 100.0, -7.999]


def datetimes(rng):
    return {"$dt": rng.choice(["2024-02-29T23:59:59", "2023-12-31T00:00:00", "2021-01-01T10:11:12", "2000-02-29T00:00:01", "1970-01-01T00:00:00", "2020-12-31T12:00:00", f"{rng.randrange(1700, 2300)}-{rng.randrange(1, 13):02d}-{rng.randrange(1, 29):02d}T05:06:07"])}


COLS = {
    "t": ("text", lambda r: r.choice(TEXTS)), "s": ("text", lambda r: r.choice(TEXTS)), "a b": ("text", lambda r: r.choice(TEXTS)), "x.y": ("text", lambda r: r.choice(TEXTS)), "Id": ("int", lambda r: r.randrange(1000)),
    "n": ("int", lambda r: r.choice([0, 1, -1, 5, 31, 366, -400, 12345])), "k": ("size", lambda r: r.choice([0, 1, 2, 3, 5, 100])), "f": ("float", lambda r: r.choice(FLOATS)), "num": ("num", lambda r: r.choice(NUMS)),
    "d": ("date", lambda r: r.choice(DATES)), "dt": ("time", datetimes), "dd": ("date", lambda r: {"$d": r.choice(["2024-02-29", "2023-12-31", "2021-01-02", "2016-02-28"])}),
    "b": ("bool", lambda r: r.random() < 0.5), "l": ("list", lambda r: [r.choice(TEXTS) for _ in range(r.randrange(4))]), "ln": ("list", lambda r: [r.choice([3, -1, 2.5, 0, 10]) for _ in range(r.randrange(5))]),
}


def by_type(json):
    out = {}
    for c, (t, _) in COLS.items():
        if not (json and c in ("dt", "dd")):
            out.setdefault(t, []).append(c)
    return out


class Gen:
    def __init__(self, rng, json):
        self.rng, self.cols, self.json = rng, by_type(json), json

    def col(self, *types):
        n = self.rng.choice([c for t in types for c in self.cols.get(t, [])])
        return dict(k="col", n=n, bt=int(" " in n or self.rng.random() < 0.1))

    def const(self, src):
        return dict(k="const", src=src)

    def fn(self, f, *a):
        return dict(k="fn", f=f, a=list(a))

    def small(self):
        return self.rng.choice([self.const(str(self.rng.choice([0, 1, 2, 3, 7, 50]))), self.col("size")])

    def any(self, depth):
        return self.gen(self.rng.choice(["text", "int", "leaf", "date", "bool"]), depth)

    def gen(self, kind, depth):
        r, g, fn = self.rng, self.gen, self.fn
        leaf = depth <= 0 or r.random() < 0.25
        if kind == "leaf":
            return self.col(*[t for t in self.cols if t != "list"])
        if kind == "date":
            if leaf:
                return self.col("date", "time") if r.random() < 0.8 else self.const(r.choice(["'2024-02-29'", "'2023-12-31 23:59'", "\"2020-12-31T10:00:00\"", "NULL", "'nodate'"]))
            return r.choice([lambda: fn("ADDDAYS", g("date", depth - 1), g("days", depth - 1)), lambda: fn("DATE", g("date", depth - 1))])()
        if kind == "days":
            return self.const(str(r.choice([0, 1, -1, 28, 29, 30, 365, 366, -366, 4000]))) if leaf else r.choice([lambda: self.col("int", "size"), lambda: fn("LEN", g("text", depth - 1)), lambda: fn("MONTH", g("date", depth - 1))])()
        if kind == "int":
            if leaf:
                return self.col("int", "size") if r.random() < 0.7 else self.const(r.choice(["0", "1", "-1", "42", "null"]))
            return r.choice([lambda: fn(r.choice(["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "QUARTER", "WEEK"]), g("date", depth - 1)), lambda: fn("DAYSDIFF", g("date", depth - 1), g("date", depth - 1)),
                             lambda: fn("LEN", g("text", depth - 1)), lambda: fn("LEN", g("list", depth - 1)), lambda: fn(r.choice(["TRUNC", "INTEGER"]), g("number", depth - 1)), lambda: fn("ROUND", g("float", depth - 1)),
                             lambda: fn(r.choice(["YEAR", "HOUR"]), g("any", depth - 1))])()
        if kind == "number":
            return r.choice([lambda: self.col("num"), lambda: g("float", depth), lambda: self.col("int", "bool"), lambda: g("int", depth - 1)])()
        if kind == "float":
            if leaf:
                return self.col("float") if r.random() < 0.7 else self.const(r.choice(["0.5", "-1.25", "3.0", "10.125"]))
            return r.choice([lambda: fn("DOUBLE", self.col("num", "float", "int")), lambda: fn("ROUND", self.col("float"), self.const(r.choice("0123")))])()
        if kind == "text":
            if leaf:
                return self.col("text") if r.random() < 0.7 else self.const(r.choice(CONST_TEXTS))
            return r.choice([lambda: fn(r.choice(["UPPER", "UCASE", "LOWER", "LCASE", "TRIM", "STRING"]), self.any(depth - 1)), lambda: fn(r.choice(["LEFT", "RIGHT"]), self.any(depth - 1), self.small()),
                             lambda: fn("MID", self.any(depth - 1), self.small(), self.small()), lambda: fn("CONCAT", *[self.any(depth - 1) for _ in range(r.choice([2, 2, 3]))]), lambda: fn(r.choice(["CONCAT", "STRING"]), self.col("list")),
                             lambda: fn(r.choice(["MD5", "HASH"]), self.col("text", "int", "size", "bool", "num"))])()
        if kind == "bool":
            if leaf:
                return self.col("bool") if r.random() < 0.7 else self.const(r.choice(["TRUE", "false"]))
            return r.choice([lambda: fn("ISNONE", self.any(depth - 1)), lambda: fn("BOOLEAN", self.any(depth - 1)), lambda: fn("BETWEEN", g("int", depth - 1), g("int", depth - 1), g("float", depth - 1)),
                             lambda: fn("BETWEEN", self.col("text"), self.const("'a'"), self.const("'x'")),
                             lambda: fn("BETWEEN", self.const("'2020-06-01'") if self.json else self.col("time"), self.const("'2020-01-01'"), self.const("'2024-01-01'"))])()
        if kind == "list":
            return self.col("list") if leaf else fn("SORT", g("list", depth - 1))
        return self.any(depth)

    def top(self, depth):
        return self.gen(self.rng.choice(["text", "int", "date", "bool", "float", "list", "leaf", "leaf"]), depth)


def scenario(rng, via):
    json = via != "evaluator"
    G = Gen(rng, json)
    fields = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        fields.append({"e": G.top(rng.choice([0, 1, 2, 3])), "as": rng.choice(["", "", "u", "v2", "out_name", "w"] + (["t", "n"] if via != "sql" else []))})
    if rng.random() < 0.2 and (via == "evaluator" or len(fields) > 0):
        fields.insert(rng.choice([0, len(fields)]), {"e": {"k": "all"}, "as": ""})
    if via == "sql":  # constants and columns have to have names of their own
        seen = set()
        for f in fields:
            if f["as"] in seen:
                f["as"] = ""
            seen.add(f["as"])
        if any(f["e"]["k"] == "all" for f in fields):  # there, columns keep the name they had too
            for f in fields:
                f["as"] = f["as"] if f["e"]["k"] == "fn" else ""
    rows = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        r = []
        for c, (t, make) in COLS.items():
            if (json and c in ("dt", "dd")) or rng.random() < 0.12:
                continue
            r.append([c, None if rng.random() < 0.12 else make(rng)])
        if json and not r:
            r = [["n", 1]]
        rng.shuffle(r)
        rows.append(r)
    return dict(kind=via, fields=fields, rows=rows, style=rng.randrange(10**6), via=via)


def expr(e):
    """from the specification's expressions"""
    if e["k"] == "col":
        return dict(k="col", n="".join(map(chr, e["name"])))
    if e["k"] == "const":
        return dict(k="const", src="".join(map(chr, e["src"])))
    if e["k"] == "fn":
        return dict(k="fn", f=e["f"], a=[expr(x) for x in e["a"]])
    return dict(k="all")


def run(ctx):
    rng = ctx.rng
    one = dict(NFields=1, Depth=2)
    ctx.mc("MC_Select", over=one)
    ctx.mc("MC_Select")
    if ctx.thorough:
        ctx.mc("MC_Select", over=dict(NFields=1, Depth=3))
    ctx.mc_broken("MC_Select", [("flat", "Contract", one), "lastarg", "noalias", "memo", "star", "inplace"], invariant="Contract")
    scns = []
    for g in ctx.gen("MC_Select", over={"INVARIANT": "Emit", **one}) + ctx.gen("MC_Select", over={"INVARIANT": "Emit"}, limit=ctx.n(800, None)):
        fields = [{"e": expr(f["e"]), "as": "".join(map(chr, f["as"]))} for f in g["fields"]]
        rows = [[[c, v] for c, v in r] for r in ([["t", "a"], ["n", 7]], [["t", None]], [["n", 5], ["t", "a"]])]
        scns.append(dict(kind="model", fields=fields, rows=rows, style=rng.randrange(10**6), via=rng.choice(["evaluator", "evaluator", "reader"])))
    scns += [scenario(rng, via) for via, n in (("evaluator", ctx.n(1200, 12000)), ("reader", ctx.n(350, 4000)), ("sql", ctx.n(350, 4000))) for _ in range(n)]
    ctx.judge("T_Select", ctx.drive("selects", scns))
    ctx.assumptions += ["texts which functions change the case of are of Latin-1", "numbers have at most three digits after the point, and are less than two million",
                        "functions are given arguments of the kinds they are for, or nulls"]
