"""C17 DNF filters select exactly the rows that satisfy them"""
from checks import values as V

KINDS = {"n": "num", "t": "text", "b": "bool", "d": "date", "l": "list", "k": "nums", "two words": "text"}


def value(rng, kind, forms):
    if kind == "num":
        v = rng.choice(V.NUMBERS)
        return v, V.num(v)
    if kind == "text":
        v = rng.choice(V.TEXTS)
        return v, V.text(v)
    if kind == "bool":
        v = rng.random() < 0.5
        return v, [1, int(v)]
    if kind == "date":
        return V.date_value(rng, forms)
    v = [rng.choice(V.TEXTS if kind == "list" else V.NUMBERS) for _ in range(rng.choice([0, 1, 2, 3]))]
    return v, V.lst(v)


def case(rng, s):
    return rng.choice([s, s.upper(), s.title()])


def pattern(rng):
    t = rng.choice(V.TEXTS)
    i, j = sorted((rng.randrange(len(t) + 1), rng.randrange(len(t) + 1)))
    return rng.choice([t, t[:i] + "%" + t[j:], t[:i] + "_" + t[i + 1 :], "%" + t[i:j] + "%", t[:i] + "%%" + t[j:] + "_", "%" + t[i:], t[:j] + "%"])


def pred(rng, fields, forms):
    f = rng.choice(fields)
    kind = KINDS[f]
    a = dict(f=f, v=[0], vs=[])
    ops = ["=", "<>"]
    if kind in ("num", "text", "date", "date"):
        ops += ["<", "<=", ">", ">=", "in", "notin"]
    if kind == "text":
        ops += ["like", "like", "like", "matches", "matches", "contains", "notcontains"]
    if kind in ("list", "nums"):
        ops += ["contains", "notcontains"] * 3
    o = rng.choice(ops)
    words = {"=": ["=", "==", "is"], "<>": ["!=", "<>"], "notin": ["!in", "not in"], "notcontains": ["!contains"], "matches": ["matches", "~"]}.get(o, [o])
    if o == "like":
        val = pattern(rng)
        a["v"] = V.cp(val)
    elif o == "matches":
        val, a["v"] = V.regex(rng)
    elif o in ("in", "notin"):
        vs = [value(rng, kind, forms) for _ in range(rng.choice([0, 1, 2, 4]))]
        a["vs"] = [e for _, e in vs]
        val = [v for v, _ in vs]
        if rng.random() < 0.5:
            val = {"$t": val}
    elif o in ("contains", "notcontains"):
        if kind == "text":
            val = rng.choice(["a", "b", "", "and", "(", "A", "ab", "."])
        else:
            val = rng.choice(V.TEXTS if kind == "list" else V.NUMBERS)
        a["v"] = V.enc(val)
    else:
        if rng.random() < 0.04 and o in ("=", "<>"):
            val = None
        else:
            val, a["v"] = value(rng, kind, forms)
    a["o"] = o
    return {"$t": [f, case(rng, rng.choice(words)), val]}, a


def build(tree, preds):
    return preds[tree[1] - 1] if tree[0] == "atom" else [build(t, preds) for t in tree[1]]


def leaves(tree):
    return 1 if tree[0] == "atom" else sum(leaves(t) for t in tree[1])


def scenario(rng, h, form, ways):
    fields = rng.sample(list(KINDS), rng.choice([1, 2, 4, len(KINDS)]))
    ps = [pred(rng, fields, [form]) for _ in range(leaves(h["tree"]))]
    rows, seen = [], []
    for _ in range(rng.choice([3, 12, 12])):
        r, e = {}, {"_": [0]}
        for f, k in KINDS.items():
            x = rng.random()
            if x < 0.1:
                continue
            r[f], e[f] = (None, [0]) if x < 0.2 else value(rng, k, [form])
        rows.append(r)
        seen.append(e)
    return dict(rows=rows, filter=build(h["tree"], [p for p, _ in ps]), ways=ways, kind=f"{len(ps)} tuples",
                judge=dict(rows=seen, tree=h["tree"], atoms=[a for _, a in ps]))


def run(ctx):
    ctx.mc("MC_Dnf", over={"MaxLeaves": 8} if ctx.thorough else {})
    ctx.mc_broken("MC_Dnf", ["swapped", "emptyfalse", "shallow"], invariant="Contract")
    hs = ctx.gen("MC_Dnf", over={"INVARIANT": "Emit", "Width": 3, "MaxLeaves": 5} if ctx.thorough else {"INVARIANT": "Emit"})
    small = [h for h in hs if leaves(h["tree"]) <= 2]
    rng = ctx.rng
    pick = small * ctx.n(3, 20) + [rng.choice(small[:6] if i % 2 else hs) for i in range(ctx.n(900, 8000))]
    scns = [scenario(rng, h, "textdate", ["reader", "dictset"]) for h in pick]
    scns += [scenario(rng, h, rng.choice(["dt", "date", "textdate"]), ["dictset", "memory"]) for h in pick]
    ctx.judge("T_Dnf", ctx.drive("filters", scns))
    ctx.assumptions += ["values are only compared with values of their own type"]
