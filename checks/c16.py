"""C16 text filter expressions select exactly the rows that satisfy them"""
from checks import values as V

FIELDS = {"n": "num", "m": "mixed", "t": "text", "user id": "text", "b": "bool", "d": "date", "l": "list", "year": "num", "t.x": "text", "island": "num"}
POOL = list(V.TEXTS)  # the texts of a scenario: rows and filters draw from the same few
STYLE = [""]  # some scenarios are about one operator
FAMILIES = [["stra\u00dfe", "STRASSE", "strasse", "ss", "\u00df"], ["a\nb", "b\na", "a\nab", "a", "b", "b\nab\na"], ["ab", "aB", "AB", "axb", "a_b", "a%b"],
            ["\u0416\u0443\u043a", "\u0436\u0423\u041a", "\u03a9\u0394", "\u03c9\u03b4", "\u00c9t\u00e9"], ["None", "NULL", "", "a", "none"], ["a.b", "axb", "a+", "aa", "a\\b", "(a)", "[a]"]]
QUOTED = {"user id", "year", "d", "b", "l"}  # which must be, or may be, in backticks


def row_value(rng, kind, forms):
    r = rng.random()
    if kind == "mixed":
        kind = rng.choice(["num", "text"])
    if r < 0.2:
        return None, [0]
    if kind == "num":
        v = rng.choice(V.NUMBERS)
        return (str(v) if rng.random() < 0.1 else v), V.num(v)
    if kind == "text":
        v = rng.choice(POOL)
        return v, V.text(v)
    if kind == "bool":
        v = rng.random() < 0.5
        return (rng.choice([str, lambda b: str(b).upper(), lambda b: str(b).lower()])(v) if rng.random() < 0.2 else v), [1, int(v)]
    if kind == "date":
        return V.date_value(rng, forms)
    v = [rng.choice(POOL) for _ in range(rng.choice([0, 1, 2, 3]))]
    return v, V.lst(v)


def kw(rng, s):
    return rng.choice([s.upper(), s.lower(), s.title(), s])


def ws(rng):
    return rng.choice([" ", " ", " ", "  ", "\n", "\t ", " \r\n "])


def quote(rng, s):
    qs = [q for q in "'\"" if q not in s]
    q = rng.choice(qs)
    return q + s + q


def field(rng, f):
    if f in ("user id", "year"):
        return f"`{f}`"
    return f"`{f}`" if rng.random() < 0.15 else f


def literal(rng, kind):
    if kind == "mixed":
        kind = rng.choice(["num", "text"])
    if kind == "num":
        v = rng.choice(V.NUMBERS)
        return str(v), V.num(v)
    if kind == "text":
        v = rng.choice([t for t in POOL if not ("'" in t and '"' in t)])
        return quote(rng, v), V.text(v)
    if kind == "bool":
        v = rng.random() < 0.5
        return kw(rng, "true" if v else "false"), [1, int(v)]
    v, e = V.date_value(rng, ["textdate", "text"])
    return quote(rng, v), e


def pattern(rng):
    t = rng.choice([x for x in POOL if not ("'" in x and '"' in x)])
    r = rng.random()
    if r < 0.15:
        return t
    if r < 0.3:
        return t.swapcase() if "\u00df" not in t else t
    if r < 0.75:
        i, j = sorted((rng.randrange(len(t) + 1), rng.randrange(len(t) + 1)))
        p = t[:i] + rng.choice(["%", "%", "_", "%%"]) + t[j:]
        if rng.random() < 0.3:
            k = rng.randrange(len(p) + 1)
            p = p[:k] + rng.choice("%_") + p[k:]
        return p
    return rng.choice(["%", "_", "__", "%a%", "a%", "%b", "_b%", "%_%", "%'%", "%(%", "%and%", "%  %", "%.%", "%,%", "a_b", ""])


def atom(rng, fields):
    """(text, what the judge sees)"""
    f = rng.choice(fields)
    kind = FIELDS[f]
    F = {"k": "f", "f": f, "v": [0]}
    name = field(rng, f)
    r = rng.random()
    if kind == "text" and rng.random() < 0.8:
        r = {"like": 0.3, "matches": 0.52, "in": 0.7}.get(STYLE[0], r)
    a = dict(x=F, y={"k": "v", "f": "", "v": [0]}, ys=[])

    def gap(op):
        """around an operator of symbols no spaces are needed"""
        if op[0] in "<>=!":
            return rng.choice(["", " "]), rng.choice(["", " ", ws(rng)])
        return ws(rng), ws(rng)

    if r < 0.15:
        neg = rng.random() < 0.5
        op = kw(rng, "is") + (ws(rng) + kw(rng, "not") if neg else "")
        if kind == "bool" and rng.random() < 0.5:
            lit, e = literal(rng, "bool")
        else:
            lit, e = kw(rng, "null"), [0]
        a.update(o="isnot" if neg else "is", y={"k": "v", "f": "", "v": e})
        return name + ws(rng) + op + ws(rng) + lit, a
    if kind == "list":
        t, e = literal(rng, "text")
        a.update(o="contains", y={"k": "v", "f": "", "v": e})
        return name + ws(rng) + kw(rng, "contains") + ws(rng) + t, a
    if kind == "text" and r < 0.5:
        neg = rng.random() < 0.35
        p = pattern(rng)
        if "'" in p and '"' in p:
            p = "%"
        a.update(o="notlike" if neg else "like", y={"k": "v", "f": "", "v": V.cp(p)})
        op = (kw(rng, "not") + ws(rng) if neg else "") + kw(rng, "like")
        return name + ws(rng) + op + ws(rng) + quote(rng, p), a
    if kind == "text" and r < 0.56:
        t, e = V.regex(rng, POOL)
        a.update(o="matches", y={"k": "v", "f": "", "v": e})
        return name + ws(rng) + kw(rng, "matches") + ws(rng) + quote(rng, t), a
    if kind == "text" and r < 0.63:
        t = rng.choice(["a", "b", "and", "(", "  ", "'", "%", "."])
        a.update(o="contains", y={"k": "v", "f": "", "v": V.text(t)})
        return name + ws(rng) + kw(rng, "contains") + ws(rng) + quote(rng, t), a
    if kind in ("num", "text", "mixed", "date") and r < 0.77 and r >= 0.63:
        lits = [literal(rng, kind) for _ in range(rng.choice([1, 2, 3, 5]))]
        a.update(o="in", ys=[e for _, e in lits])
        return name + ws(rng) + kw(rng, "in") + rng.choice(["", " "]) + "(" + rng.choice([",", ", ", " , "]).join(t for t, _ in lits) + ")", a
    if rng.random() < 0.06:
        o = rng.choice(["=", "<>", "<"])
        lit, e = kw(rng, "null"), [0]
    else:
        o = rng.choice(["=", "<>"]) if kind == "bool" else rng.choice(["=", "<>", "<", "<=", ">", ">="])
        lit, e = literal(rng, kind)
    sym = rng.choice({"=": ["=", "=="], "<>": ["<>", "!="]}.get(o, [o]))
    others = [g for g in fields if FIELDS[g] == kind and g != f]
    if others and rng.random() < 0.15:
        g = rng.choice(others)
        lit, y = field(rng, g), {"k": "f", "f": g, "v": [0]}
    else:
        y = {"k": "v", "f": "", "v": e}
    l, rr = gap(sym)
    if rng.random() < 0.1:  # the other way around
        a.update(o=o, x=y, y=F)
        return lit + " " + sym + " " + name, a
    a.update(o=o, y=y)
    return name + l + sym + rr + lit, a


def scenario(rng, h, forms=("textdate", "text", "dt", "date"), ways=("dictset", "memory")):
    STYLE[0] = rng.choice(["", "", "", "like", "matches", "in"])
    POOL[:] = rng.choice([V.TEXTS, rng.sample(V.TEXTS, rng.choice([3, 6, 12])), rng.choice(FAMILIES)])
    if not any(x.isalnum() for x in POOL):
        POOL.append("a1")
    fields = rng.sample(list(FIELDS), rng.choice([1, 2, 4, len(FIELDS)]))
    n = sum(1 for t in h["tokens"] if t.isdigit())
    atoms = [atom(rng, fields) for _ in range(n)]
    out = []
    for t in h["tokens"]:
        if t.isdigit():
            out.append(atoms[int(t) - 1][0])
        elif t in "()":
            out.append(t)
        else:
            out.append(kw(rng, t))
    s = ""
    for i, t in enumerate(out):
        tight = i and ("(" in (t[-1:], out[i - 1]) or t == ")")
        s += (rng.choice(["", " "]) if tight and out[i - 1].upper() not in ("AND", "OR", "NOT") and not (out[i - 1] == ")" and False) else ws(rng) if i else "") + t
    rows, seen = [], []
    for _ in range(rng.choice([4, 12, 12])):
        r, e = {}, {"_": [0]}
        for f in FIELDS:
            if rng.random() < 0.1:
                continue
            r[f], e[f] = row_value(rng, FIELDS[f], forms)
        rows.append(r)
        seen.append(e)
    return dict(rows=rows, filter=s, ways=list(ways), kind=f"{len(atoms)} atoms",
                judge=dict(rows=seen, tree=h["tree"], atoms=[a for _, a in atoms], text=V.cp(s)))


def run(ctx):
    ctx.mc("MC_Expr", over={"MaxLeaves": 8} if ctx.thorough else {})
    ctx.mc_broken("MC_Expr", ["orfirst", "notwide", "flat"], invariant="Contract")
    hs = ctx.gen("MC_Expr", over={"INVARIANT": "Emit", "MaxLeaves": 8})
    small = [h for h in hs if len(h["tokens"]) <= 3] * 20
    pick = small + ctx.rng.sample(hs, min(len(hs), ctx.n(1500, 4000))) * ctx.n(1, 3)
    scns = [scenario(ctx.rng, h) for h in pick]
    scns += [scenario(ctx.rng, h, forms=("textdate", "text"), ways=("reader", "dictset")) for h in pick]
    ctx.judge("T_Expr", ctx.drive("filters", scns))
    ctx.assumptions += ["a text in a row which looks like a number, date or boolean is one (as mabel takes it); texts compared as texts don't look like that",
                        "booleans aren't compared with numbers"]
