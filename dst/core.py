"""Shared bits: violations, run context, digests."""

import hashlib
import json
from collections import Counter


class Violation(Exception):
    """The property is broken: ``kind`` is a short, stable class name."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = str(msg)[:2000]


def expect(cond, kind, msg=""):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


class Injected(Exception):
    """Fault injected by the simulator, as an ordinary exception."""


class InjectedBase(BaseException):
    """Fault injected by the simulator, as a KeyboardInterrupt-like one."""


class Ctx:
    """Collects what a single simulated run did."""

    def __init__(self):
        self.counters = Counter()
        self.states = set()
        self.sim_time = 0.0
        self.nontrivial = False
        self._h = hashlib.sha1()
        self.events = 0
        self.log = None  # optional list; only filled when replaying verbosely

    def event(self, *what):
        self.events += 1
        line = repr(what)
        self._h.update(line.encode())
        if self.log is not None:
            self.log.append(line)

    def fault(self, kind, n=1):
        self.counters["fault:" + kind] += n

    def probe(self, name, n=1):
        self.counters["probe:" + name] += n

    def check(self, name, n=1):
        self.counters["check:" + name] += n

    def state(self, *what):
        self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()[:16]


def jhash(obj):
    return hashlib.sha1(
        json.dumps(obj, sort_keys=True).encode()
    ).hexdigest()[:12]
