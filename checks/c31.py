"""C31 an XML document is read as the record of its elements"""
NAMES = ["a", "b", "item", "Item", "x-1", "y.z", "_u", "n2", "value", "text", "items", "é", "日本", "keys", "get", "tag"]
TEXTS = ["", "", "t", "1", "0", "null", "true", "two words", "a\u00e9\u6f22\U0001F600b", "<&>\"'", "]]", "{x}", "@y", "#text", "a  b", "a\nb", " t ", "\n\t", "a\tb ", "&amp;", "1\n2\n3", "-", "."]
FLAT = [t for t in TEXTS if "\n" not in t]


def element(rng, depth, flat, names):
    texts = FLAT if flat else TEXTS
    kids = []
    if depth > 0:
        k = rng.choice([0, 0, 1, 2, 3, 5])
        own = rng.sample(names, rng.choice([1, 1, 2, 3]) if len(names) > 2 else 1)
        kids = [element(rng, depth - 1, flat, names) for _ in range(k)]
        for i, e in enumerate(kids):
            e[0] = rng.choice(own)
        for i in range(1, len(kids)):  # the same element again
            if rng.random() < 0.1:
                kids[i] = kids[i - 1]
    tails = [rng.choice(["", "", "", " ", "tail" if rng.random() < 0.2 else ""]) for _ in kids]
    attrs = [[n, rng.choice(texts)] for n in rng.sample(names, rng.choice([0, 0, 0, 1, 2, 3]) if len(names) > 2 else rng.choice([0, 1]))]
    return [rng.choice(names), attrs, rng.choice(texts) if not kids or rng.random() < 0.4 else "", kids, tails]


def names(rng):
    return rng.sample(NAMES, rng.choice([2, 3, 5, len(NAMES)]))


def fanned(rng, flat):
    """an element with very many children"""
    ns = names(rng)
    k = rng.choice([10, 50, 257])
    kids = [element(rng, rng.choice([0, 0, 1]), flat, ns) for _ in range(k)]
    return [ns[0], [], "", kids, [""] * k]


def deep(rng, flat):
    e = element(rng, 1, flat, names(rng))
    for _ in range(rng.choice([5, 20, 40])):
        e = [rng.choice(["a", e[0]]), [["k", "v"]] if rng.random() < 0.2 else [], "", [e], [""]]
    return e


def plain(t):
    """an element of the specification"""
    return [t["tag"], [[k, "".join(map(chr, v))] for k, v in t["attrs"]], "".join(map(chr, t["text"])), [plain(k) for k in t["kids"]], [""] * len(t["kids"])]


def form(rng):
    return dict(indent=int(rng.random() < 0.5), head=int(rng.random() < 0.4), around=int(rng.random() < 0.3), noise=int(rng.random() < 0.3),
                ns=int(rng.random() < 0.4), end=int(rng.random() < 0.5), enc=rng.choice(["utf-8"] * 4 + ["iso-8859-1", "us-ascii"]))


def ascii_names(e):
    return all(ord(c) < 128 for c in e[0] + "".join(k for k, _ in e[1])) and all(ascii_names(k) for k in e[3])


def distinct(e):
    """not the same object twice, so that a text can be written for each"""
    return [e[0], e[1], e[2], [distinct(k) for k in e[3]], list(e[4])]


def run(ctx):
    rng = ctx.rng
    ctx.mc("MC_Xml", over=dict(Deep=True) if ctx.thorough else None)
    ctx.mc_broken("MC_Xml", ["last", "front", "lists", "attrs", "bare", "mixed", "raw"], invariant="Contract")
    scns = []

    def add(docs, ext):
        fm = form(rng)
        if not all(ascii_names(d) for d in docs):
            fm["enc"] = "utf-8"
        scns[-1]["files"].append(dict(name=f"{rng.randrange(16**4):04x}-{len(scns[-1]['files'])}", ext=ext, docs=docs, form=fm))

    for g in ctx.gen("MC_Xml", over={"INVARIANT": "Emit", "Wide": 2, "Deep": True}, simulate=ctx.n(400, 4000), depth=60, limit=ctx.n(400, 4000)):
        scns.append(dict(kind="generated", seed=rng.randrange(10**6), files=[]))
        d = plain(g["tree"])
        add([d], "xml")
    for i in range(ctx.n(1500, 25000)):
        scns.append(dict(kind="random", seed=rng.randrange(10**6), files=[]))
        for _ in range(rng.choice([1, 1, 2, 3])):
            ext = rng.choice(["xml", "lxml"])
            flat = ext == "lxml"
            k = 1 if ext == "xml" else rng.choice([1, 2, 5])
            docs = [fanned(rng, flat) if rng.random() < 0.03 else deep(rng, flat) if rng.random() < 0.05 else element(rng, rng.choice([0, 1, 2, 3]), flat, names(rng)) for _ in range(k)]
            add([distinct(d) for d in docs], ext)
    ctx.judge("T_Xml", ctx.drive("xmls", scns))
    ctx.assumptions += ["text after the first child of an element isn't part of its record",
                        "no two names which are told apart by their name space alone are beside each other",
                        "of an element with white space only, null and the empty text are both right"]
