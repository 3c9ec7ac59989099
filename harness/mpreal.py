"""
Reads with several processes, for real: with delays in the processes and in the consumer. The
time processes wait for one another is cut to a tenth.
"""
import multiprocessing
import multiprocessing.queues
import os
import random
import time

import common  # noqa: F401
from common import mem_reader
from mpcommon import collect, prepare

from mabel import Reader

TENTH = 0.1
_get, _put, _sleep = multiprocessing.queues.Queue.get, multiprocessing.queues.Queue.put, time.sleep


def get(self, block=True, timeout=None):
    return _get(self, block, None if timeout is None else timeout * TENTH)


def put(self, obj, block=True, timeout=None):
    return _put(self, obj, block, None if timeout is None else timeout * TENTH)


multiprocessing.queues.Queue.get, multiprocessing.queues.Queue.put = get, put
time.sleep = lambda s: _sleep(s * TENTH)


def run(scn):
    store, expected, kw = prepare(scn)
    serial = collect(lambda: Reader(inner_reader=mem_reader(store), **kw), -1)
    rng = random.Random(scn["seed"])
    parent = os.getpid()
    real = store.get

    def slow(name):
        if os.getpid() != parent:
            d = random.Random(f"{scn['seed']}{name}").choice([0, 0, 0.02, scn["slow"]])
            _sleep(d)
        return real(name)

    store.get = slow
    got, err = collect(lambda: Reader(inner_reader=mem_reader(store), multiprocess=True, **kw), scn["stop"],
                       pause=lambda: _sleep(scn["pause"]) if scn["pause"] and rng.random() < 0.05 else None)
    for _ in range(100):
        left = len(multiprocessing.active_children())
        if not left:
            break
        _sleep(0.05)
    return {"blobs": expected, "stop": scn["stop"], "busy": not scn["pause"]}, dict(recs=got, err=err, left=left, spent=0, why="finished", serial=serial[0])
