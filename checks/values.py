"""Values for rows and filters, and their encodings for TLC (see spec/Values.tla)"""


def cp(s):
    return [ord(c) for c in s]


TEXTS = ["", "a", "b", "ab", "abc", "A", "and", "or not", "a (b)", "it's", 'say "hi"', "100%", "a_b", "x  y", "[z]", "a,b", "*", "NULL", "a\\b", "a.b", "a+",
         "^a$", " lead", "trail ", "\u00c9t\u00e9", "\u00e9", "LIKE", "in (x)", "a\nb", "ten", "x=y", "<>", "like 'a'", "tab\there", "axb", "AXB", "b;--", "caf\u00e9", "{a}", "a|b", "a{2}", "aa",
         "None", "stra\u00dfe", "STRASSE", "\u0416\u0443\u043a", "\u0436\u0423\u041a", "\u03a9\u0394", "\u03c9\u03b4", "a\nab", "b\na"]
NUMBERS = [0, 1, 2, -1, 3, 10, 100, 0.5, 1.5, -2.25, 2.0, 99999, 1000000]
DATES = ["2024-02-28", "2024-02-29", "2024-03-01", "2023-12-31", "2024-01-01"]
TIMES = ["00:00:00", "09:30:00", "23:59:59", "09:03:10"]


def num(v):
    return [2, round(v * 1000)]


def text(v):
    return [3] + cp(v)


def when(d, t="00:00:00"):
    return [4] + [int(x) for x in d.split("-")] + [int(x) for x in t.split(":")]


def lst(vs):
    out = [7, len(vs)]
    for v in vs:
        e = enc(v)
        out += [len(e)] + e
    return out


def enc(v):
    if v is None:
        return [0]
    if isinstance(v, bool):
        return [1, int(v)]
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return text(v)
    if isinstance(v, list):
        return lst(v)
    raise ValueError(v)


def date_value(rng, forms):
    """(row value, encoding) of a date, in one of its forms"""
    d, t = rng.choice(DATES), rng.choice(TIMES)
    form = rng.choice(forms)
    if form == "textdate":
        return d, when(d)
    if form == "text":
        return d + rng.choice([" ", "T"]) + t + rng.choice(["", "Z", ".000000"]), when(d, t)
    if form == "dt":
        return {"$dt": d + "T" + t}, when(d, t)
    return {"$d": d}, when(d)


def regex(rng, pool=TEXTS):
    """(pattern, its encoding), without quotes"""
    t = rng.choice([x for x in pool if "'" not in x and '"' not in x and len(x) < 9] or ["a"])
    i, j = sorted((rng.randrange(len(t) + 1), rng.randrange(len(t) + 1)))
    body, codes = "", []
    for c in t[i:j]:
        if rng.random() < 0.15 and c != "\n":
            body, codes = body + ".", codes + [-1]
        else:
            body, codes = body + (c if c.isalnum() or c in " _=,<>" or ord(c) > 127 else "\\" + c), codes + [ord(c)]
    l, r = rng.random() < 0.4, rng.random() < 0.4
    return ("^" if l else "") + body + (r"\Z" if r else ""), [int(l), int(r)] + codes
