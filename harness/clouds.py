"""
The same session through several adapters (scenario as for writers, with backends), or listings:
  objects [names], ask [folders]: both adapters list each folder, and read every object listed
"""
import os
import pathlib
import re

import cloud
import common
import writers
from common import token


def session(scn):
    runs, services, judged = [], [], []
    for b in scn["backends"]:
        w, o = writers.run(dict(scn, backend=b))
        seen = []

        def plain(folder):
            # the second a frame is made in isn't the same for every adapter
            for x in re.findall(r"as_at_[\d-]+", folder):
                if x not in seen:
                    seen.append(x)
                folder = folder.replace(x, f"as_at_{seen.index(x)}")
            return folder

        lay = [dict(e=e["e"], w=e["w"], folder=token(plain(e["folder"])), recs=e.get("recs", []), ext=e.get("ext", ""))
               for e in o["ev"] if e["e"] in ("put", "mark", "odd")]
        runs.append(dict(lay=lay, ok=[e["ok"] for e in o["ev"] if e["e"] in ("ret", "fret")], reads=o["reads"]))
        if "attempts" in o:
            services.append(dict(attempts=o["attempts"], stored=o["stored"]))
        judged.append(dict(cfgs=w["cfgs"], ev=o["ev"], reads=o["reads"]))
    return {"what": "session"}, {"runs": runs, "services": services, "judged": judged}


def listing(scn):
    names = scn["objects"]
    data = {n: (n + "!").encode() for n in names}
    lists, same = [], True
    for b in ("gcs", "minio"):
        cloud.begin(data)
        cls, more = cloud.reader_class(b)
        for folder in scn["ask"]:
            reader = cls(dataset=folder, **more)
            got = [str(x) for x in reader.get_blobs_at_path(path=pathlib.Path(folder))]
            bucket, _, rest = folder.partition("/")
            lists.append(dict(by=b, bucket=bucket, folder=rest.split("/"), got=[names.index(x) + 1 if x in names else 0 for x in got]))
            for x in got:
                if x in data and "." in x:
                    same = same and bytes(reader.get_blob_bytes(x)) == data[x]
    objs = [dict(bucket=n.partition("/")[0], name=n.partition("/")[2].split("/")) for n in names]
    return {"what": "list"}, {"objects": objs, "lists": lists, "same": same}


def run(scn):
    return listing(scn) if "ask" in scn else session(scn)
