"""C21 SQL statements return what SQL says they return"""
from checks import c16
from checks import values as V

NUMS = [0, 1, 2, -1, 3, 0.5, -2.25, 10, 2.0]
COLS = {"id": "num", "n": "num", "island": "num", "t": "text", "b": "bool"}
ALIASES = {"num": ["x", "selected", "n", "island", "order_no"], "text": ["s", "t", "fromage"], "bool": ["b", "yes"]}
TX = [t for t in V.TEXTS if not ("'" in t and '"' in t)] + [" from x", "SELECT", "a LIMIT 1", "order by n", "/* no */", "-- no", ")", "x  where"]


def cased(rng, s):
    return rng.choice([s.upper(), s.lower(), s.title(), s])


def gap(rng, tight=False):
    """white space or comments, or nothing where nothing is needed"""
    x = rng.random()
    if tight and x < 0.5:
        return ""
    if x < 0.75:
        return " "
    if x < 0.9:
        return rng.choice(["\n", "  ", "\t", "\r\n", " \n "])
    return rng.choice([" -- don't FROM here\n", "\n--\n", " /* it (SELECT) is */ ", "/**/", "\n/* a\n -- b */\n", " -- end of line\r\n", "/* LIMIT 1 */"])


def tree(rng, n):
    if n == 1:
        t = ["atom", 0]
        return ["not", t] if rng.random() < 0.15 else t
    k = rng.randrange(1, n)
    return [rng.choice(["and", "or"]), tree(rng, k), tree(rng, n - k)]


LEVEL = {"or": 1, "and": 2, "not": 3, "atom": 4}


def number(t, count):
    if t[0] == "atom":
        count[0] += 1
        return ["atom", count[0]]
    return [t[0]] + [number(s, count) for s in t[1:]]


def written(rng, t, atoms, least=0):
    if t[0] == "atom":
        return atoms[t[1] - 1]
    if t[0] == "not":
        s = cased(rng, "not") + gap(rng) + written(rng, t[1], atoms, 3)
    else:
        lv = LEVEL[t[0]]
        s = written(rng, t[1], atoms, lv) + gap(rng) + cased(rng, t[0]) + gap(rng) + written(rng, t[2], atoms, lv)
    if LEVEL[t[0]] < least or rng.random() < 0.15:
        s = "(" + gap(rng, True) + s + gap(rng, True) + ")"
    return s


def condition(rng, make):
    """(text, for the judge)"""
    n = rng.choice([1, 1, 2, 3])
    t = number(tree(rng, n), [0])
    atoms = [make() for _ in range(n)]
    return written(rng, t, [a for a, _ in atoms]), dict(tree=t, atoms=[a for _, a in atoms])


def having_atom(rng, q, kinds):
    f = rng.choice(list(kinds))
    kind = kinds[f]
    if kind == "bool":
        v = rng.random() < 0.5
        lit, e, o = cased(rng, "true" if v else "false"), [1, int(v)], rng.choice(["=", "<>"])
    elif kind == "text":
        lit, e = c16.literal(rng, "text")
        o = rng.choice(["=", "<>", "<", ">="])
    else:
        v = rng.choice([0, 1, 2, 3, -1, 0.5])
        lit, e, o = str(v), V.num(v), rng.choice(["=", "<>", "<", "<=", ">", ">="])
    s = rng.choice(["", " "])
    return f + s + o + s + lit, dict(x={"k": "f", "f": f, "v": [0]}, y={"k": "v", "f": "", "v": e}, ys=[], o=o)


def name_of(i):
    return f"{i['fn']}({i['col']})" if i["fn"] else i["col"]


def query(rng, cols, depth, outer=True):
    """a statement on columns {name: kind}: (for the judge, columns of the result)"""
    q = dict(sel=[], star=0, distinct=0, having=[], where=[], by=[], order=[], limit=-1)
    q["from"] = []
    text = {}
    if depth:
        inner, cols = query(rng, cols, depth - 1, False)
        q["from"] = [inner["q"]]
        text["from"] = inner
    if rng.random() < 0.5:
        text["where"], w = condition(rng, lambda: c16.atom(rng, list(cols)))
        q["where"] = [w]
    x = rng.random()
    grouping = x < 0.45
    kinds = {}
    having = {}

    def alias(i, kind, p):
        old = name_of(i)
        i["name"] = rng.choice(ALIASES[kind]) if rng.random() < p else old
        if i["name"] in kinds:
            return False
        kinds[i["name"]] = kind
        q["sel"].append(i)
        return True

    if grouping:
        q["by"] = rng.sample(list(cols), rng.choice([0, 1, 1, 1, 2]) if len(cols) > 1 else rng.choice([0, 1]))
        for b in q["by"]:
            if rng.random() < 0.8 and alias(dict(fn="", col=b), cols[b], 0.3):
                having[b] = cols[b]
        avg = outer and rng.random() < 0.35
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = rng.choice(list(cols) + ["*"])
            kind = cols.get(c, "*")
            fns = {"num": ["COUNT", "SUM", "MIN", "MAX"] + (["AVG"] * 3 if avg else []), "text": ["COUNT", "MIN", "MAX"], "bool": ["COUNT"], "*": ["COUNT"]}[kind]
            fn = rng.choice(fns)
            i = dict(fn=fn, col=c)
            k = "num" if fn not in ("MIN", "MAX") else kind
            if alias(i, k, 0.4 if outer else 1):
                having[name_of(i)] = k
        if not q["sel"]:
            return query(rng, cols, 0, outer) if not depth else query(rng, COLS, depth, outer)
        rng.shuffle(q["sel"])
        avg = any(i["fn"] == "AVG" for i in q["sel"])
        if rng.random() < 0.4 and not avg and having:
            text["having"], h = condition(rng, lambda: having_atom(rng, q, having))
            q["having"] = [h]
    elif x < 0.6:
        q["star"] = 1
        kinds.update(cols)
        avg = False
    else:
        for c in rng.sample(list(cols), rng.randrange(1, len(cols) + 1)):
            alias(dict(fn="", col=c), cols[c], 0.3)
        avg = False
    if rng.random() < 0.3 and not avg:
        q["distinct"] = 1
    if outer:
        if rng.random() < 0.5 and not avg:
            q["order"] = [dict(f=rng.choice(list(kinds)), desc=int(rng.random() < 0.5))]
        if rng.random() < 0.4:
            q["limit"] = rng.choice([0, 1, 2, 3, 5, 50])
    elif "id" in kinds and not grouping and any(i["name"] == "id" and i["col"] == "id" for i in q["sel"]) and not q["from"] and rng.random() < 0.5:
        # which is defined, as the ids are different
        q["order"] = [dict(f="id", desc=int(rng.random() < 0.5))]
        q["limit"] = rng.choice([0, 1, 2, 3, 5, 50])
    if not outer and rng.random() < 0.05:
        q["limit"] = 0
    return dict(q=q, text=text), kinds


def item(rng, i):
    if i["fn"]:
        s = cased(rng, i["fn"]) + "(" + gap(rng, True) + i["col"] + gap(rng, True) + ")"
    else:
        s = i["col"]
    if i["name"] != name_of(i):
        s += gap(rng) + cased(rng, "as") + gap(rng) + i["name"]
    return s


def render(rng, m):
    q, text = m["q"], m["text"]
    g = lambda tight=False: gap(rng, tight)
    s = g(True) + cased(rng, "select") + g()
    if q["distinct"]:
        s += cased(rng, "distinct") + g()
    s += "*" if q["star"] else (g(True) + "," + g(True)).join(item(rng, i) for i in q["sel"])
    s += g() + cased(rng, "from")
    if q["from"]:
        s += g(True) + "(" + g(True) + render(rng, text["from"]) + g(True) + ")" + g(True)
    else:
        s += g() + rng.choice(["b.d", "b/d"])
    if q["where"]:
        s += g() + cased(rng, "where") + g() + text["where"]
    if q["by"]:
        s += g() + cased(rng, "group") + g() + cased(rng, "by") + g() + (g(True) + "," + g(True)).join(q["by"])
    if q["having"]:
        s += g() + cased(rng, "having") + g() + text["having"]
    if q["order"]:
        o = q["order"][0]
        s += g() + cased(rng, "order") + g() + cased(rng, "by") + g() + o["f"]
        if o["desc"] or rng.random() < 0.5:
            s += g() + cased(rng, "desc" if o["desc"] else "asc")
    if q["limit"] >= 0:
        s += g() + cased(rng, "limit") + g() + str(q["limit"])
    return s + g(True)


def rows_for(rng):
    nums, texts = rng.sample(NUMS, rng.choice([2, 4, 8])), rng.sample(TX, rng.choice([2, 4, 12]))
    nullish = rng.choice([0, 0.2, 0.6])

    def value(kind):
        if rng.random() < nullish:
            return None
        return {"num": lambda: rng.choice(nums), "text": lambda: rng.choice(texts), "bool": lambda: rng.random() < 0.5}[kind]()

    rows = []
    for i in range(rng.choice([0, 1, 3, 8, 12])):
        r = {c: value(k) for c, k in COLS.items()}
        r["id"] = i
        rows.append(r)
    rng.shuffle(rows)
    return rows


def scenario(rng, n=4):
    qs = []
    for _ in range(n):
        m, _ = query(rng, dict(COLS), rng.choice([0, 0, 0, 1, 1, 2]))
        qs.append(dict(text=render(rng, m), judge=m["q"], avg=[i["name"] for i in m["q"]["sel"] if i["fn"] == "AVG"]))
    return dict(rows=rows_for(rng), blobs=rng.choice([1, 1, 2, 3]), queries=qs)


def text_of(w):
    """the text of a condition of the model"""
    a = w["atoms"]
    return " AND ".join(x["x"]["f"] + " " + x["o"] + " " + str(x["y"]["v"][1] // 1000) for x in a)


def shape(q):
    t = {}
    if q["from"]:
        t["from"] = shape(q["from"][0])
    for k in ("where", "having"):
        if q[k]:
            t[k] = text_of(q[k][0])
    return dict(q=q, text=t)


def from_model(rng, qs):
    rows = [dict(a=rng.choice([None, 0, 1]), b=rng.choice([0, 1])) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    return dict(rows=rows, blobs=rng.choice([1, 2]), queries=[dict(text=render(rng, shape(q)), judge=q, avg=[]) for q in qs])


def run(ctx):
    c16.FIELDS.update({n: k for k, ns in ALIASES.items() for n in ns})
    c16.FIELDS.update(COLS)
    ctx.mc("MC_Sql", over={"Deep": "TRUE"} if ctx.thorough else {})
    ctx.mc_broken("MC_Sql", ["skip", "inquotes", "nosubwhere", "groupfirst", ("firstparen", "Contract", {"Deep": "TRUE", "MaxRows": 0})], over={"MaxRows": 1}, invariant="Contract")
    ctx.mc_broken("MC_Sql", ["limitfirst", "distinctfirst", "havingfirst"], invariant="Contract")
    qs = ctx.gen("MC_Sql", over={"INVARIANT": "Emit", "Deep": "TRUE", "MaxRows": 0}) * ctx.n(1, 8)
    ctx.rng.shuffle(qs)
    scns = [from_model(ctx.rng, qs[i:i + 4]) for i in range(0, len(qs), 4)]
    scns += [scenario(ctx.rng) for _ in range(ctx.n(1500, 16000))]
    ctx.judge("T_Sql", ctx.drive("sql", scns))
    ctx.assumptions += ["ORDER BY returns at most 10000 rows", "columns have values of one type", "texts don't look like numbers, dates or booleans", "sub-queries have an order where they have a limit", "names in SELECT aren't in backticks"]
