"""Simulation kernel: virtual time, event queue, violations, statistics."""
import heapq


class Malformed(Exception):
    """a result which does not have the documented form at all"""


class Violation(Exception):
    """A property of the code under test is broken."""

    def __init__(self, prop, cls, msg):
        Exception.__init__(self, "%s [%s]: %s" % (prop, cls, msg))
        self.prop = prop
        self.cls = cls
        self.msg = msg


class Hang(BaseException):
    """The guard fired (the run does not return)."""


CALLS = [0]     # calls into the code under test: the guard's sign of progress


class Sim:
    """discrete-event simulator; total order by (time, sequence)"""

    def __init__(self):
        self.now = 0.0
        self.seq = 0
        self.queue = []
        self.events = 0

    def at(self, when, func):
        self.seq += 1
        item = [max(when, self.now), self.seq, func]
        heapq.heappush(self.queue, item)
        return item

    def after(self, delay, func):
        return self.at(self.now + delay, func)

    @staticmethod
    def cancel(item):
        if item is not None:
            item[2] = None

    def run(self, max_events, until=float("inf")):
        while self.queue and self.events < max_events:
            when, _, func = self.queue[0]
            if when > until:
                break
            heapq.heappop(self.queue)
            if func is None:
                continue
            self.now = when
            self.events += 1
            func()


class Stats:
    """counters of one run; merged over runs for the evidence"""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.ops = {}
        self.sim_time = 0.0
        self.states = set()
        self.paths = set()

    def fault(self, name, k=1):
        self.faults[name] = self.faults.get(name, 0) + k

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def op(self, name, k=1):
        self.ops[name] = self.ops.get(name, 0) + k


def stable_hash(text):
    """64-bit FNV-1a, independent of PYTHONHASHSEED"""
    h = 0xCBF29CE484222325
    for b in text.encode("utf-8", "surrogatepass"):
        h = ((h ^ b) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h
