"""
Reads with several processes, with the processes, their queues and time made deterministic:
every process is a thread of the scheduler, and hands over at every line of the reader's
multiprocessing, every operation of a queue and every sleep.

scenario: blobs [{recs | raw | bad | empty, fmt}], cpus, seed, policy, switch,
          pause (s the consumer takes per record, at times), stop (records taken, -1 all),
          feeder (ms a record may take through a queue), filter, script (names, policy script)
"""
import gc
import os
import queue as _queue

import sched
import common  # noqa: F401
from common import Mem, mem_reader, token
from mpcommon import build, collect, prepare

import multiprocessing
import multiprocessing.queues  # noqa: F401

from mabel import Reader
import mabel.data.readers.internals.multiprocess_wrapper as wrapper

REAL = dict(Process=multiprocessing.Process, Queue=multiprocessing.Queue, cpu_count=multiprocessing.cpu_count,
            get_context=multiprocessing.get_context, fork=os.fork, active_children=multiprocessing.active_children)


class Killed(BaseException):
    pass


class World:
    def __init__(self, s, cpus, feeder):
        self.s, self.cpus, self.feeder = s, cpus, feeder
        self.procs = []
        self.native = False


world = None


def me():
    return world.s.me() if world is not None else None


def check():
    t = me()
    if t is not None and getattr(t, "killed", False):
        raise Killed


class VQueue:
    """what goes in takes a while to come out, in order per process"""

    def __init__(self, maxsize=0, *a, **k):
        self.maxsize = maxsize or 0
        self.taken = 0  # places in use
        self.items = []  # (visible at, n, producer, obj)
        self.n = 0
        self.closed = set()  # the processes which closed their end

    def _visible(self):
        now = world.s.us
        return [x for x in self.items if x[0] <= now]

    def put(self, obj, block=True, timeout=None):
        if me() in self.closed:
            raise ValueError("Queue is closed")
        s = world.s
        s.point()
        check()
        deadline = None if timeout is None else s.us + int(max(0, timeout) * 1_000_000)
        while self.maxsize and self.taken >= self.maxsize:
            if not block or (deadline is not None and s.us >= deadline):
                raise _queue.Full
            s.block(self, None if deadline is None else (deadline - s.us) / 1_000_000)
            check()
        self.taken += 1
        self.n += 1
        t = me()
        mine = [x[0] for x in self.items if x[2] is t]
        at = max([s.us + s.rng.choice([0, 0, 1, world.feeder * 1000])] + mine)
        self.items.append((at, self.n, t, obj))
        s.wake(self)
        s.point()
        check()

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        if me() in self.closed:
            raise ValueError("Queue is closed")
        s = world.s
        s.point()
        check()
        deadline = None if timeout is None else s.us + int(max(0, timeout) * 1_000_000)
        while not self._visible():
            if not block or (deadline is not None and s.us >= deadline):
                raise _queue.Empty
            wait = [x[0] for x in self.items] + ([deadline] if deadline is not None else [])
            s.block(self, (min(wait) - s.us) / 1_000_000 if wait else None)
            check()
        x = min(self._visible())
        self.items.remove(x)
        self.taken -= 1
        s.wake(self)
        s.point()
        check()
        return x[3]

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        world.s.point()
        check()
        return not self._visible()

    def full(self):
        world.s.point()
        check()
        return bool(self.maxsize) and self.taken >= self.maxsize

    def qsize(self):
        return self.taken

    def close(self):
        self.closed.add(me())

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class VProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.daemon = bool(daemon)
        self.name = name or f"p{len(world.procs) + 1}"
        self.exitcode = None
        self._t = None
        self.pid = None
        world.procs.append(self)
        self._label = f"p{len(world.procs)}"

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _body(self):
        try:
            self.run()
            # a process ends when what it has put has gone through
            t = world.s.me()
            s = world.s
            while True:
                left = [x for q in self._queues() for x in q.items if x[2] is t and x[0] > s.us]
                if not left:
                    break
                s.sleep((max(x[0] for x in left) - s.us) / 1_000_000)
                check()
            self.exitcode = 0
        except Killed:
            self.exitcode = -15
        except sched.Abort:
            raise
        except BaseException:
            self.exitcode = 1

    def _queues(self):
        return [a for a in self._args if isinstance(a, VQueue)]

    def start(self):
        self._t = world.s.spawn(self._body, self._label)
        self.pid = 100000 + len(world.procs)
        world.s.point()

    def is_alive(self):
        world.s.point()
        check()
        return self._t is not None and self._t.state != "done"

    def join(self, timeout=None):
        s = world.s
        deadline = None if timeout is None else s.us + int(timeout * 1_000_000)
        while self._t.state != "done" and (deadline is None or s.us < deadline):
            s.block(self._t, None if deadline is None else (deadline - s.us) / 1_000_000)

    def terminate(self):
        if self._t is not None and self._t.state != "done":
            self._t.killed = True
            if self._t.state in ("blocked", "sleep"):
                self._t.state, self._t.until = "ready", None

    kill = terminate

    def close(self):
        pass

    @property
    def ident(self):
        return self.pid


class VContext:
    Process, Queue = VProcess, VQueue
    JoinableQueue = VQueue
    SimpleQueue = VQueue

    @staticmethod
    def cpu_count():
        return world.cpus

    @staticmethod
    def active_children():
        return active()


def active():
    return [p for p in world.procs if p._t is not None and p._t.state != "done"]


def forked():
    if world is not None:
        world.native = True
    return REAL["fork"]()


def virtual(on):
    m = multiprocessing
    if on:
        m.Process, m.Queue, m.SimpleQueue, m.cpu_count = VProcess, VQueue, VQueue, lambda: world.cpus
        m.get_context, m.active_children, os.fork = (lambda method=None: VContext), active, forked
    else:
        m.Process, m.Queue, m.cpu_count = REAL["Process"], REAL["Queue"], REAL["cpu_count"]
        m.get_context, m.active_children, os.fork = REAL["get_context"], REAL["active_children"], REAL["fork"]
    for name in ("Process", "Queue", "SimpleQueue", "cpu_count", "get_context", "active_children"):
        if hasattr(wrapper, name):
            setattr(wrapper, name, getattr(m, name))


def run(scn):
    global world
    store, expected, kw = prepare(scn)
    s = sched.Sched(scn["seed"], scn["policy"], scn.get("switch", 0.2), trace=scn["policy"] not in ("coarse", "script"))
    s.traced = "multiprocess_wrapper"
    s.max_steps = 40_000
    s.script = list(scn.get("script", []))
    world = World(s, scn["cpus"], scn.get("feeder", 0))
    obs = {"recs": [], "err": "", "left": 0, "spent": 0}
    begin = s.us
    serial = collect(lambda: Reader(inner_reader=mem_reader(store), **kw), -1)
    gc.disable()

    def main():
        got, err = collect(lambda: Reader(inner_reader=mem_reader(store), multiprocess=True, **kw), scn["stop"],
                           pause=lambda: s.sleep(s.rng.choice([0, 0.3, scn["pause"]])) if scn["pause"] and s.rng.random() < 0.2 else s.point())
        obs["recs"], obs["err"] = got, err
        if err.startswith("unexpected"):
            obs["err"] = err
        obs["spent"] = min((s.us - begin) // 1_000_000, 1_000_000)
        s.sleep(1)
        obs["left"] = len(active())

    virtual(True)
    try:
        why = s.run(main, stall=10, limit=30)
    finally:
        virtual(False)
        if world.native:
            why = "native"
        world = None
        gc.enable()
    obs.update(why=why, serial=serial[0], steps=s.steps)
    return {"blobs": expected, "stop": scn["stop"], "busy": not scn["pause"]}, obs
