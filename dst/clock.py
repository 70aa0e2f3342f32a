"""
Simulated clock. ``install()`` must run before pyvrp (or anything else that
binds clock functions by name) is imported: it puts dispatchers in the ``time``
module, which read the simulated clock while a simulation is active, and the
real one otherwise. The simulated clock never runs backwards (perf_counter is
monotone), but may stall, creep, or jump forward arbitrarily between reads.
"""

import random
import time as _time

REAL = {}
_active = None


def real_now():
    return REAL.get("perf_counter", _time.perf_counter)()


class SimClock:
    """
    Parameters: mode is one of
      frozen  - time stands still;
      unit    - every read advances one second (exact in binary);
      creep   - small random advances;
      jumpy   - mostly small, sometimes huge forward jumps (suspend, NTP slew);
      stall   - long stretches without progress, then bursts.
    All advances are dyadic rationals, so arithmetic on them is exact.
    """

    MODES = ["frozen", "unit", "creep", "jumpy", "stall"]

    def __init__(self, mode, seed, start=None):
        self.mode = mode
        self.rng = random.Random(f"clock:{mode}:{seed}")
        if start is None:  # the origin of the clock is arbitrary
            start = random.Random(f"origin:{mode}:{seed}").choice(
                [1024, 1024, 0, 1 << 40]
            )
        self.now = float(start)
        self.start = self.now
        self.reads = 0
        self.jumps = 0
        self.stalls = 0
        self.left = 0
        self.on_read = None

    def advance(self):
        m, rng = self.mode, self.rng
        if m in ("frozen", "manual"):
            return 0.0
        if m == "unit":
            return 1.0
        if m == "creep":
            return rng.randrange(0, 64) / 1024
        if m == "jumpy":
            if rng.random() < 0.08:
                self.jumps += 1
                return float(rng.choice([60, 3600, 86400 * 30]))
            return rng.randrange(0, 16) / 1024
        if self.left > 0:
            self.left -= 1
            return 0.0
        if rng.random() < 0.2:
            self.left = rng.randint(1, 12)
            self.stalls += 1
            return 0.0
        return rng.randrange(0, 4096) / 1024

    def read(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read(self)
        if self.reads > 1:
            self.now += self.advance()
        return self.now

    def peek(self):
        return self.now


def _dispatch(name, scale=None):
    real = REAL[name]

    def clock():
        if _active is None:
            return real()
        val = _active.read()
        return int(val * 1_000_000_000) if scale else val

    clock.__name__ = name
    return clock


def _sleep(secs):
    if _active is None:
        return REAL["sleep"](secs)
    _active.now += max(float(secs), 0.0)


def install():
    if REAL:
        return
    for name in ("perf_counter", "monotonic", "time"):
        REAL[name] = getattr(_time, name)
        REAL[name + "_ns"] = getattr(_time, name + "_ns")
    REAL["sleep"] = _time.sleep
    for name in ("perf_counter", "monotonic", "time"):
        setattr(_time, name, _dispatch(name))
        setattr(_time, name + "_ns", _dispatch(name + "_ns", True))
    _time.sleep = _sleep


class use:
    """Context manager that makes the given SimClock the process' clock."""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global _active
        self.prev = _active
        _active = self.clock
        return self.clock

    def __exit__(self, *exc):
        global _active
        _active = self.prev
