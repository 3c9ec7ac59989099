"""
Reads of XML files.

scenario: files [{name, ext, docs [element], form}]; an element is [tag, attrs [[name, text]], text, kids, tails],
          text and tails are texts, kids elements
"""
import random

from common import Mem, cps, mem_reader

from mabel import Reader


def esc(rng, s, quote=None, cdata=True):
    if cdata and s.isascii() and quote is None and s.strip() and rng.random() < 0.15 and "]]>" not in s and "\r" not in s:
        return "<![CDATA[" + s + "]]>"
    out = []
    for c in s:
        if c in "<&" or (c == ">" and rng.random() < 0.7) or c == quote or c == "\r" or (quote and c in "\t\n"):
            named = {"<": "&lt;", "&": "&amp;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}
            out.append(named[c] if c in named and rng.random() < 0.6 else rng.choice([f"&#{ord(c)};", f"&#x{ord(c):x};"]))
        elif rng.random() < 0.04:
            out.append(f"&#{ord(c)};")
        else:
            out.append(c)
    return "".join(out)


def noise(rng, form):
    if form.get("noise") and rng.random() < 0.2:
        return rng.choice(["<!-- a <b> comment -->", "<?pi data?>", "<!---->"])
    return ""


def write(rng, form, e, ns=None, level=0):
    """the text of an element; ns are the prefixes which are known"""
    tag, attrs, text, kids, tails = e
    ns, decl = dict(ns or {}), ""
    prefix = ""
    if form.get("ns") and rng.random() < (0.7 if not ns else 0.2):
        p = rng.choice(["", "n", "m"])
        ns[p] = "urn:" + rng.choice("uv")
        decl = f' xmlns{":" if p else ""}{p}="{ns[p]}"'
    named = sorted(p for p in ns if p)
    if named and rng.random() < 0.5:
        prefix = rng.choice(named) + ":"
    q = '"' if rng.random() < 0.7 else "'"
    out = "<" + prefix + tag + decl
    for k, v in attrs:
        ap = rng.choice(named) + ":" if named and rng.random() < 0.3 else ""
        out += rng.choice([" ", " ", "  " if form.get("line") else "\n "]) + ap + k + "=" + q + esc(rng, v, q) + q
    if not text and not kids and rng.random() < 0.6:
        return out + rng.choice(["/>", " />"])
    out += ">" + esc(rng, text)
    pad = "" if not (form.get("indent") and not form.get("line")) else "\n" + "  " * (level + 1)
    for k, tail in zip(kids, tails):
        out += noise(rng, form) + (pad if not tail.strip() else "") + write(rng, form, k, ns, level + 1) + esc(rng, tail, cdata=False)
    return out + (pad[:-2] if kids else "") + "</" + prefix + tag + rng.choice(["", "", " "]) + ">"


def document(rng, form, e):
    s = write(rng, form, e)
    enc = form.get("enc", "utf-8")
    if form.get("head") or enc != "utf-8":
        s = f'<?xml version="1.0" encoding="{enc}"?>' + ("" if form.get("line") else rng.choice(["", "\n"])) + s
    if form.get("around") and not form.get("line"):
        s += rng.choice(["\n", "\n<!-- end -->\n", "  "])
    return s.encode(enc, "xmlcharrefreplace")


def name(s):
    return s.encode("unicode_escape").decode()


def spec(form, e, top=True):
    """the element for the judge"""
    tag, attrs, text, kids, tails = e
    # the indentation before the first child is part of the text
    return {"tag": name(tag), "attrs": [[name(k), cps(v)] for k, v in attrs], "text": cps(text),
            "kids": [spec(form, k, False) for k in kids]}


def value(v):
    if v is None:
        return {"t": "n"}
    if isinstance(v, str):
        return {"t": "s", "v": cps(v)}
    if isinstance(v, list):
        return {"t": "l", "v": [value(x) for x in v]}
    if isinstance(v, dict):
        return {"t": "d", "v": [[name(str(k)), value(x)] for k, x in v.items()]}
    return {"t": "x", "v": [[type(v).__name__, {"t": "n"}]]}


def run(scn):
    rng = random.Random(scn["seed"])
    store, files = Mem(), []
    for f in sorted(scn["files"], key=lambda x: x["name"]):
        form = dict(f["form"], line=f["ext"] == "lxml")
        docs = [document(rng, form, d) for d in f["docs"]]
        if f["ext"] == "lxml":
            assert not any(b"\n" in d or b"\r" in d for d in docs)
            data = b"\n".join(docs) + (b"\n" if form.get("end") else b"")
        else:
            data = docs[0]
        store.blobs["b/data/2024/02/29/" + f["name"] + "." + f["ext"]] = data
        files.append([spec(form, d) for d in f["docs"]])
    got, err = [], ""
    try:
        for rec in Reader(inner_reader=mem_reader(store), dataset="b/data", partitions=["{yyyy}/{mm}/{dd}"], start_date="2024-02-29", end_date="2024-02-29"):
            got.append(value(rec.as_dict() if hasattr(rec, "as_dict") else rec))
    except Exception as e:
        err = type(e).__name__
    return {"files": files}, {"recs": got, "err": err}
