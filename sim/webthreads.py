"""Threads inside the simulated processes: the real ``threading`` and ``queue`` modules on
top of simulated locks and tasks, so that threads started by clubs take part in the
seeded schedule.  Locks made by anybody else stay real ones."""
import os
import queue
import sys
import threading

from . import web

_real = {
    "Lock": threading.Lock, "RLock": threading.RLock, "allocate": threading._allocate_lock,
    "start": threading.Thread.start, "join": threading.Thread.join,
    "is_alive": threading.Thread.is_alive, "SimpleQueue": queue.SimpleQueue,
}
_LIBS = ("threading.py", "queue.py", "thread.py", "_base.py")
_CLUBS = os.sep + "clubs" + os.sep


def _wanted():
    """whether clubs asks for it, maybe through threading, queue or concurrent.futures"""
    if not web.active():
        return False
    fr = sys._getframe(1)
    while fr is not None:
        name = fr.f_code.co_filename
        if os.path.basename(name) not in _LIBS and not name.endswith("webthreads.py"):
            return _CLUBS in name
        fr = fr.f_back
    return False


class SimLock:
    """threading.Lock and threading.RLock of a simulated process"""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def __deepcopy__(self, memo):
        # forked: as it is, and held by nobody who could release it
        other = memo[id(self)] = SimLock(self.reentrant)
        other.owner, other.depth = self.owner, self.depth
        return other

    def acquire(self, blocking=True, timeout=-1):
        me = web.WORLD.current if web.active() else "outside"
        if self.reentrant and self.depth and self.owner is me:
            self.depth += 1
            return True
        if self.depth:
            if not blocking:
                return False
            if me == "outside":
                raise RuntimeError("lock of a simulated process taken outside of it")
            web.WORLD.wait(lambda: not self.depth, None if timeout < 0 else timeout, "lock")
            if self.depth:
                return False
        self.owner, self.depth = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            if web.active():
                web.WORLD.op("unlock")

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return bool(self.depth)

    def _is_owned(self):
        return bool(self.depth) and (
            not self.reentrant or self.owner is (web.WORLD.current if web.active() else "outside"))

    def _release_save(self):
        saved, self.depth, self.owner = self.depth, 0, None
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self.depth = saved

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


class _Maker:
    """like the built-in functions it does not become a method in a class body"""

    def __init__(self, real, sim):
        self.real, self.sim = real, sim

    def __call__(self, *a, **k):
        return self.sim() if _wanted() else self.real(*a, **k)


def _start(self):
    if not web.active():
        return _real["start"](self)
    w = web.WORLD
    w.op("thread")
    if getattr(self, "_sim_task", None) is not None:
        raise RuntimeError("threads can only be started once")
    self._started._flag = True
    w.stats.probe("thread started by clubs")
    self._sim_task = w.spawn(self.run, w.current.proc, "thread")
    self._sim_task.thread = True


def _is_alive(self):
    task = getattr(self, "_sim_task", None)
    if task is None:
        return _real["is_alive"](self)
    return not task.done


def _join(self, timeout=None):
    task = getattr(self, "_sim_task", None)
    if task is None:
        return _real["join"](self, timeout)
    if task is web.WORLD.current:
        raise RuntimeError("cannot join current thread")
    web.WORLD.wait(lambda: task.done, timeout, "join")


def install():
    threading.Lock = threading._allocate_lock = _Maker(_real["allocate"], SimLock)
    threading.RLock = _Maker(_real["RLock"], lambda: SimLock(True))
    threading._time = queue.time = web._d_monotonic
    threading.Thread.start, threading.Thread.join = _start, _join
    threading.Thread.is_alive = _is_alive
    if queue.SimpleQueue is not queue._PySimpleQueue:
        queue.SimpleQueue = _Maker(_real["SimpleQueue"], queue._PySimpleQueue)
