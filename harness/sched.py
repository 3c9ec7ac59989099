"""
A deterministic scheduler for the threads of mabel's writers.

Managed threads are real threads, of which only one runs at any time. At every line of the
traced code, every lock and every sleep, the running thread hands the baton to a thread
chosen by the seeded policy. Time is virtual: it only moves by sleeping.

Import this before mabel: it replaces threading.Lock, RLock, Event and Thread (for those
made by mabel only) and the functions of time (for managed threads only).
"""
import _thread
import os
import random
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
MABEL = os.path.join(REPO, "mabel") + os.sep

real = dict(Lock=threading.Lock, RLock=threading.RLock, Event=threading.Event, Thread=threading.Thread,
            time=time.time, time_ns=time.time_ns, sleep=time.sleep, monotonic=time.monotonic, perf_counter=time.perf_counter)

active = None  # the scheduler of the scenario being run


class Abort(BaseException):
    """unwinds the threads of a scenario which is over"""


class T:
    def __init__(self, name):
        self.name = name
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"  # ready, blocked, sleep, native, done
        self.on = None
        self.until = None
        self.prio = 0
        self.ident = None


class Sched:
    def __init__(self, seed, policy="random", switch=0.2, start=1_700_000_000.0, trace=True, on_sleep=None):
        self.rng = random.Random(seed)
        self.policy = policy
        self.switch = switch
        self.us = int(start * 1_000_000)
        self.ticks = 0
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.dead = False
        self.why = ""
        self.steps = 0
        self.trace_on = trace
        self.on_sleep = on_sleep
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.mutex = _thread.allocate_lock()
        self.changes = set()
        self.traced = "writers"
        self.max_steps = 400_000
        self.script = []  # policy "script": the names of the threads which are to go next, in order
        if policy == "pct":
            self.changes = {self.rng.randrange(1, 4000) for _ in range(6)}

    # ---------------------------------------------------------- time
    def now(self):
        return self.us / 1_000_000

    def now_ns(self):
        self.ticks += 1
        return self.us * 1000 + self.ticks % 1000 + (self.ticks // 1000) * 1_000_000_000_000

    # ---------------------------------------------------------- threads
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def spawn(self, target, name):
        t = T(name)
        t.prio = self.rng.random()
        self.threads.append(t)

        def body():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.sem.acquire()
            try:
                if self.dead:
                    raise Abort
                if self.trace_on:
                    sys.settrace(self.tracer)
                target()
            except Abort:
                pass
            except BaseException as e:  # a thread that dies is told to the scenario
                self.why = self.why or f"{name} died: {type(e).__name__}: {e}"
            finally:
                sys.settrace(None)
                t.state = "done"
                self.by_ident.pop(t.ident, None)
                self.wake(t)
                if not self.dead:
                    self.hand_over(t)

        th = real["Thread"](target=body, name="managed-" + name, daemon=True)
        t.thread = th
        th.start()
        return t

    def ready(self):
        return [t for t in self.threads if t.state == "ready"]

    def choose(self, me):
        """who runs next; may move time"""
        while True:
            r = self.ready()
            sleepers = [t for t in self.threads if t.until is not None and t.state in ("sleep", "blocked")]
            if sleepers and (not r or (self.policy != "coarse" and self.rng.random() < 0.002)):
                first = min(t.until for t in sleepers)
                self.us = max(self.us, first)
                for t in sleepers:
                    if t.until <= self.us:
                        t.state, t.until = "ready", None
                continue
            break
        if not r:
            return None
        if self.policy == "coarse":
            return me if me in r else r[0]
        if self.policy == "script":
            while self.script:
                name = self.script.pop(0)
                hit = [t for t in r if t.name == name]
                if hit:
                    return hit[0]
                if any(t.name == name for t in sleepers):
                    break
        if self.policy == "pct":
            if self.steps in self.changes and me in r:
                me.prio = self.rng.random() * 0.1
            return max(r, key=lambda t: t.prio)
        if me in r and self.rng.random() > self.switch:
            return me
        return self.rng.choice(r)

    def hand_over(self, me):
        nxt = self.choose(me)
        if nxt is None:
            if all(t.state == "done" for t in self.threads):
                self.why = self.why or "finished"
                self.stop()
            elif any(t.state == "native" for t in self.threads):
                self.current = None
                return
            else:
                self.why = "deadlock"
                self.stop()
            return
        self.current = nxt
        if nxt is not me:
            nxt.sem.release()

    def stop(self):
        if not self.dead:
            self.dead = True
            for t in self.threads:
                if t is not self.me() and t.state != "done":
                    try:
                        t.sem.release()
                    except RuntimeError:
                        pass
            try:
                self.finished.release()
            except RuntimeError:
                pass

    def reschedule(self, me):
        """me has set its state; returns when it is its turn"""
        if self.dead:
            raise Abort
        self.steps += 1
        if self.steps > self.max_steps:
            self.why = "livelock"
            self.stop()
            raise Abort
        if self.current is not me and self.current is not None:
            # it was thought to be blocked outside of the scheduler
            if me.state == "native":
                me.state = "ready"
            me.sem.acquire()
        else:
            if me.state == "native":
                me.state = "ready"
            self.hand_over(me)
            if self.current is not me:
                me.sem.acquire()
        if self.dead:
            raise Abort

    def point(self):
        me = self.me()
        if me is not None:
            self.reschedule(me)

    def block(self, on, timeout=None):
        me = self.me()
        me.state, me.on = "blocked", on
        me.until = None if timeout is None else self.us + int(timeout * 1_000_000)
        self.reschedule(me)
        me.on = None

    def wake(self, on):
        for t in self.threads:
            if t.state == "blocked" and t.on is on:
                t.state, t.until = "ready", None

    def sleep(self, seconds):
        me = self.me()
        if self.on_sleep:
            self.on_sleep(me, seconds)
        me.state, me.until = "sleep", self.us + max(0, int(round(seconds * 1_000_000)))
        self.reschedule(me)

    def join(self, t):
        while t.state != "done":
            self.block(t)

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(MABEL) or self.traced not in fn:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def run(self, target, stall=8.0, limit=60.0):
        """run a scenario; returns why it ended"""
        global active
        active = self
        try:
            main = self.spawn(target, "main")
            self.current = main
            main.sem.release()
            seen, since, t0 = -1, real["monotonic"](), real["monotonic"]()
            while not self.finished.acquire(timeout=0.25):
                t = real["monotonic"]()
                if self.steps != seen:
                    seen, since = self.steps, t
                elif t - since > stall:
                    # the running thread waits for something we don't control
                    cur = self.current
                    if cur is not None and cur.state == "ready" and len(self.ready()) > 1:
                        cur.state = "native"
                        self.hand_over(cur)
                        since = t
                    else:
                        self.why = "hang"
                        self.stop()
                if t - t0 > limit:
                    self.why = "hang"
                    self.stop()
            for t in self.threads:
                t.thread.join(timeout=2)
            return self.why
        finally:
            active = None


def managed():
    s = active
    return s if s is not None and s.me() is not None else None


# ------------------------------------------------------------------ replacements
class VLock:
    def __init__(self):
        self._l = real["Lock"]()

    def acquire(self, blocking=True, timeout=-1):
        s = managed()
        if s is None:
            return self._l.acquire(blocking, timeout)
        s.point()
        deadline = None if timeout is None or timeout < 0 else s.us + int(timeout * 1_000_000)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if deadline is not None and s.us >= deadline:
                return False
            s.block(self, None if deadline is None else (deadline - s.us) / 1_000_000)
        return True

    def release(self):
        self._l.release()
        s = active
        if s is not None:
            s.wake(self)
            if managed() and not s.dead:
                s.point()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class VRLock(VLock):
    def __init__(self):
        super().__init__()
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner, self._n = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
            super().release()

    __enter__ = acquire


class VEvent:
    def __init__(self):
        self._e = real["Event"]()

    def is_set(self):
        return self._e.is_set()

    def set(self):
        self._e.set()
        if active is not None:
            active.wake(self)

    def clear(self):
        self._e.clear()

    def wait(self, timeout=None):
        s = managed()
        if s is None:
            return self._e.wait(timeout)
        if s.on_sleep and timeout is not None:
            s.on_sleep(s.me(), timeout)
        deadline = None if timeout is None else s.us + int(timeout * 1_000_000)
        while not self._e.is_set():
            if deadline is not None and s.us >= deadline:
                return False
            s.block(self, None if deadline is None else (deadline - s.us) / 1_000_000)
        return True


def _ours(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(MABEL)


def _lock():
    return VLock() if _ours() else real["Lock"]()


def _rlock():
    return VRLock() if _ours() else real["RLock"]()


def _event():
    return VEvent() if _ours() else real["Event"]()


class VThread(real["Thread"]):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        f = sys._getframe(1)
        self._managed = f.f_code.co_filename.startswith(MABEL)
        self._t = None

    def start(self):
        s = active
        if s is not None and self._managed:
            self._t = s.spawn(self.run, self.name)
            s.point()
        else:
            super().start()

    def join(self, timeout=None):
        s = managed()
        if self._t is None:
            return super().join(timeout)
        if s is not None:
            deadline = None if timeout is None else s.us + int(timeout * 1_000_000)
            while self._t.state != "done" and (deadline is None or s.us < deadline):
                s.block(self._t, None if deadline is None else (deadline - s.us) / 1_000_000)

    def is_alive(self):
        return self._t.state != "done" if self._t is not None else super().is_alive()


def _time():
    s = managed()
    return s.now() if s else real["time"]()


def _time_ns():
    s = managed()
    return s.now_ns() if s else real["time_ns"]()


def _monotonic():
    s = managed()
    return s.now() if s else real["monotonic"]()


def _perf():
    s = managed()
    return s.now() if s else real["perf_counter"]()


def _sleep(x):
    s = managed()
    return s.sleep(x) if s else real["sleep"](x)


threading.Lock, threading.RLock, threading.Event, threading.Thread = _lock, _rlock, _event, VThread
time.time, time.time_ns, time.monotonic, time.perf_counter, time.sleep = _time, _time_ns, _monotonic, _perf, _sleep
