"""
Batches which are killed while they write, in a scratch folder of their own.

scenario: objects (what is there before, as in layout), dataset, partitions, date, first,
          batches [{at, fmt, blob_size, recs, always, failure, kill}]
          kill: null | {"line": fraction} | {"bytes": n};  or sweep: how many kill points
          of the (only) batch to try, each from the same beginning (0: all of them)
"""
import os
import resource
import shutil
import signal
import sys

import common
import layout

from mabel import Reader
from mabel.adapters.disk import DiskReader
from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter

SCHEMA = [{"name": "id", "type": "INTEGER"}, {"name": "f", "type": "VARCHAR"}]
MABEL = os.path.dirname(sys.modules["mabel"].__file__) + os.sep


def batch(scn, b, kill, report=None):
    """in a child: write the batch, dying at the kill-th executed line of mabel"""
    seen = [0]

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(MABEL):
            return None

        def local(frame, event, arg):
            if event == "line":
                seen[0] += 1
                if seen[0] == kill:
                    os._exit(77)
            return local

        return local

    if b.get("kill") and "bytes" in b["kill"]:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (b["kill"]["bytes"],) * 2)
    if kill is not None:
        sys.settrace(trace)
    w = BatchWriter(inner_writer=DiskWriter, dataset=scn["dataset"], format=b["fmt"], date=scn["date"], partitions=scn["partitions"],
                    schema=SCHEMA, always_complete=bool(b.get("always")), **({"blob_size": b["blob_size"]} if b.get("blob_size") else {}))
    for r in b["recs"]:
        w.append({"id": r, "f": "x" * b.get("pad", 1)})
    w.finalize(**({"has_failure": True} if b.get("failure") else {}))
    sys.settrace(None)
    if report:
        with open(report, "w") as f:
            f.write(str(seen[0]))
    os._exit(0)


def spawn(scn, b, kill, report=None):
    pid = os.fork()
    if pid == 0:
        try:
            batch(scn, b, kill, report)
        except BaseException as e:
            os.write(2, f"child: {type(e).__name__} {e}\n".encode())
        os._exit(9)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "died" if os.WTERMSIG(status) == signal.SIGXFSZ else f"signal {os.WTERMSIG(status)}"
    code = os.WEXITSTATUS(status)
    return {0: "failed" if b.get("failure") or not (b["recs"] or b.get("always")) else "done", 77: "died"}.get(code, f"exit {code}")


def step(scn, b, outcome, chain):
    reader = Reader(inner_reader=DiskReader, dataset=scn["dataset"], partitions=scn["partitions"], start_date=scn["date"], end_date=scn["date"])
    got, err = layout.read(reader)
    return dict(new=b["recs"], outcome=outcome, got=got, err=err, chain=chain)


def run(scn):
    home = common.scratch_dir()
    try:
        base = os.path.join(home, "base")
        os.makedirs(base)
        os.chdir(base)
        for o in scn["objects"]:
            os.makedirs(os.path.dirname(o["path"]), exist_ok=True)
            with open(o["path"], "wb") as f:
                f.write(layout.content(o))
        steps = []

        def count(b, here):
            shutil.copytree(here, os.path.join(home, "dry"))
            os.chdir(os.path.join(home, "dry"))
            report = os.path.join(home, "count")
            st = spawn(scn, {**b, "kill": None}, -1, report)
            os.chdir(here)
            shutil.rmtree(os.path.join(home, "dry"))
            if st not in ("done", "failed"):
                raise RuntimeError("the batch fails without being killed: " + st)
            return int(open(report).read())

        if "sweep" in scn:
            b = scn["batches"][0]
            common.set_clock(b["at"], True)
            n = count(b, base)
            k = scn["sweep"] or n
            points = sorted({1 + (j * n) // k + scn.get("phase", 0) % max(1, n // k) for j in range(k)})
            for point in points + [n + 1]:
                here = os.path.join(home, "p")
                shutil.copytree(base, here)
                os.chdir(here)
                steps.append(step(scn, b, spawn(scn, b, point), 0))
                os.chdir(home)
                shutil.rmtree(here)
        else:
            for b in scn["batches"]:
                common.set_clock(b["at"], True)
                kill = b.get("kill")
                point = None
                if kill and "line" in kill:
                    point = 1 + int(count(b, base) * kill["line"])
                steps.append(step(scn, b, spawn(scn, b, point), 1))
        return {"first": scn["first"]}, {"steps": steps}
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)
