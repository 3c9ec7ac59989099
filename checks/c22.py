"""C22 a dataset outside the allowed prefixes is never accessed"""
import re

from checks.c21 import cased, gap

NAMES = ["a", "b", "a/b", "ab", "a/b/c", "A/b", "abc", "a_b", "a-b", "b/a", "finance/pay", "finance_pay", "finance/pay/2024", "Finance/pay", "public/x", "\u00e9t\u00e9/x", "x1/y2", "a/1"]
ODD = "*?;$~@!:\\%&=+[]{}|#^\u00b7"


def statement(rng, name, depth):
    """a statement which returns every record"""
    s = rng.choice(["*", "id"])
    tail = ""
    if rng.random() < 0.3:
        tail += gap(rng) + cased(rng, "where") + " id > 0"
    if rng.random() < 0.15:
        tail += gap(rng) + "GROUP BY id"
        s = "id"
    if rng.random() < 0.2:
        tail += gap(rng) + "ORDER BY id" + rng.choice(["", " desc", " ASC"])
    if rng.random() < 0.2:
        tail += gap(rng) + "LIMIT 100"
    head = cased(rng, "select") + gap(rng) + (cased(rng, "distinct") + gap(rng) if rng.random() < 0.2 else "") + s + gap(rng) + cased(rng, "from")
    if depth == 0:
        return head + gap(rng) + name + ("\n" if "--" in name else "") + tail
    return head + gap(rng, True) + "(" + gap(rng, True) + statement(rng, name, depth - 1) + gap(rng, True) + ")" + tail


def name_of(rng):
    x = rng.random()
    n = rng.choice(NAMES)
    if x < 0.45:
        return n
    if x < 0.6:
        return n.replace("/", ".")
    i = rng.randrange(len(n) + 1)
    if x < 0.85:
        return n[:i] + rng.choice(["..", "//", "--", "./", "/.", "-", "_", ".", "/", "/../", "1", "-.-"]) + n[i:]
    n = n[:i] + rng.choice(ODD) + n[i:]
    return n.replace("/*", "*")


def prefixes(rng):
    if rng.random() < 0.15:
        return []
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(NAMES)
        out.append(n[: rng.randrange(1, len(n) + 1)] if rng.random() < 0.6 else n + rng.choice(["", "/"]))
    return out


def blobs_for(names):
    out, names = set(), set(names)
    for n in names | {n.split("--")[0] for n in names}:
        n = n.replace(".", "/").strip("/")
        if n and "//" not in n:
            out |= {n + "/0.jsonl", n + "x/0.jsonl", n + "/s/1.jsonl"}
    return sorted(out)


def call(rng, how, name, pre, depth=0):
    c = dict(how=how, name=name, prefixes=pre, kind=rng.choice(["list", "list", "tuple", "set"]))
    if how == "sql":
        c["text"] = statement(rng, name, depth)
    return c


def run(ctx):
    ctx.mc("MC_Access", over={"MaxName": 5} if ctx.thorough else {})
    ctx.mc_broken("MC_Access", ["firstprefix", "within", "dotted", "nested", "outeronly", "late"], over={"MaxName": 3}, invariant="Contract")
    hs = ctx.gen("MC_Access", over={"INVARIANT": "Emit", "MaxName": 3 if not ctx.thorough else 4})
    calls = []
    for h in hs:
        name, pre = "".join(map(chr, h["name"])), ["".join(map(chr, p)) for p in h["prefixes"]]
        if h["how"] == "reader" and not re.fullmatch("[^./]+(/[^./]+)*/?", name):
            continue
        if "/*" in name:  # which begins a comment
            continue
        calls.append(call(ctx.rng, h["how"], name, pre, h["depth"]))
    ctx.rng.shuffle(calls)
    calls = calls[: ctx.n(8000, 10**6)]
    scns = [dict(blobs=blobs_for([c["name"] for c in calls[i:i + 5]] + ["a", "A"]), calls=calls[i:i + 5]) for i in range(0, len(calls), 5)]
    for _ in range(ctx.n(1200, 12000)):
        cs = []
        for _ in range(5):
            if ctx.rng.random() < 0.3:
                cs.append(call(ctx.rng, "reader", ctx.rng.choice(NAMES), prefixes(ctx.rng)))
            else:
                cs.append(call(ctx.rng, "sql", name_of(ctx.rng), prefixes(ctx.rng), ctx.rng.choice([0, 0, 1, 2])))
        scns.append(dict(blobs=blobs_for([c["name"] for c in cs] + ["a", "finance/pay"]), calls=cs))
    ctx.judge("T_Access", ctx.drive("access", scns))
    ctx.assumptions += ["two dashes in a FROM clause begin a comment", "datasets given to Reader itself are plain paths"]
