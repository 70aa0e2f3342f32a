"""Python side of the preloaded shim (see shim/simshim.cpp)."""

import ctypes
import errno

_lib = ctypes.CDLL(None)
available = hasattr(_lib, "sim_yield")

if available:
    _lib.sim_alloc_arm.argtypes = [
        ctypes.c_long, ctypes.c_int, ctypes.c_int,
    ]  # fmt: skip
    _lib.sim_alloc_disarm.argtypes = [ctypes.POINTER(ctypes.c_long)]
    _lib.sim_sched_init.argtypes = [
        ctypes.c_int, ctypes.c_uint64, ctypes.c_long, ctypes.c_long,
    ]  # fmt: skip
    _lib.sim_io_arm.argtypes = [ctypes.c_char_p]
    _lib.sim_io_fault.argtypes = [
        ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int,
    ]  # fmt: skip


class failing_alloc:
    """
    While active, this thread's n-th C++ allocation fails (and, when sticky,
    all later ones). With n < 0 nothing fails, but allocations are counted.
    With no_gil, only allocations made while the interpreter lock is released
    count, that is, those of the search itself.
    """

    def __init__(self, n, sticky=False, no_gil=False):
        self.n, self.sticky, self.no_gil = n, sticky, no_gil
        self.fired = self.seen = 0

    def __enter__(self):
        _lib.sim_alloc_arm(
            self.n if self.n >= 0 else 2**60, int(self.sticky), int(self.no_gil)
        )
        return self

    def __exit__(self, *exc):
        seen = ctypes.c_long()
        self.fired = _lib.sim_alloc_disarm(ctypes.byref(seen))
        self.seen = seen.value


OPEN, READ, WRITE, CLOSE = range(4)
OPS = ["open", "read", "write", "close"]


class failing_io:
    """
    While active, file I/O on files below ``directory`` suffers the given
    faults: a list of [op, at, keep, errno name or None, repeat].
    """

    def __init__(self, directory, faults):
        self.directory, self.faults = str(directory), faults
        self.calls = [0] * 4
        self.fired = [0] * 4

    def __enter__(self):
        _lib.sim_io_arm(self.directory.encode())
        for op, at, keep, err, repeat in self.faults:
            code = getattr(errno, err) if err else 0
            _lib.sim_io_fault(op, at, keep, code, int(repeat))
        return self

    def __exit__(self, *exc):
        calls, fired = (ctypes.c_long * 4)(), (ctypes.c_long * 4)()
        _lib.sim_io_disarm(calls, fired)
        self.calls, self.fired = list(calls), list(fired)


def sched_init(n, seed, mean, max_switches):
    _lib.sim_sched_init(n, seed, mean, max_switches)


sched_enter = _lib.sim_sched_enter if available else None
sched_start = _lib.sim_sched_start if available else None
sched_exit = _lib.sim_sched_exit if available else None
sim_yield = _lib.sim_yield if available else None


def sched_stats():
    """Switches, of these in native code, lock waits, hash of the schedule."""
    a, b, c = ctypes.c_long(), ctypes.c_long(), ctypes.c_long()
    h = ctypes.c_uint64()
    _lib.sim_sched_stats(*map(ctypes.byref, (a, b, c, h)))
    return a.value, b.value, c.value, h.value


def heap_poison(on):
    """Overwrite C++ memory when it is freed (single threaded use only)."""
    _lib.sim_heap_poison(int(on))
