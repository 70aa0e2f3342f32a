"""
A simulated pool of worker processes, in place of ProcessPoolExecutor: tasks
and results cross the boundary as pickles, a seeded scheduler decides which
worker runs which task when, and workers may die.

A task either runs at once when it is scheduled, or (interleaved) in a forked
process of its own, which runs only while the scheduler lets it: it waits after
every few lines of PyVRP's Python code until it is chosen again. Only one of
the processes runs at any time, so that the seed determines the execution.
"""

import concurrent.futures as cf
import os
import pickle
import random
import signal
import struct
import sys
from concurrent.futures.process import BrokenProcessPool

current = None  # the simulation that new pools belong to
pools = []


class Simulation:
    def __init__(self, seed, deaths=(), interleave=False):
        self.rng = random.Random(seed)
        self.interleave = interleave
        self.switches = 0
        self.deaths = set(deaths)  # numbers of the tasks that kill a worker
        self.started = 0
        self.order = []
        self.died = 0


# Files whose lines are no points at which a worker may be suspended: what they
# do does not reach beyond the process.
INNER = ("IteratedLocalSearch.py", "PenaltyManager.py", "ProgressPrinter.py",
         "LocalSearch.py", "Result.py")  # fmt: skip


class Worker:
    """A forked process that runs one task, a burst of lines at a time."""

    def __init__(self, fut, task, num, doomed):
        self.fut, self.num, self.doomed = fut, num, doomed
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down_w)
                os.close(up_r)
                self.serve(down_r, up_w, task)
            finally:
                os._exit(1)
        os.close(down_r)
        os.close(up_w)
        self.down, self.up = down_w, up_r

    def serve(self, down, up, task):
        import pyvrp

        root = os.path.dirname(pyvrp.__file__) + os.sep
        left = 0

        def wait():
            nonlocal left
            got = os.read(down, 4)
            if len(got) < 4:
                os._exit(1)
            left = struct.unpack("i", got)[0]

        def line(frame, event, arg):
            nonlocal left
            if event == "line":
                if left <= 0:
                    os.write(up, b"Y")
                    wait()
                left -= 1
            return line

        def call(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(root) and not name.endswith(INNER):
                return line
            return None

        wait()
        fn, args, kwargs = pickle.loads(task)
        sys.settrace(call)
        try:
            try:
                out = (True, fn(*args, **kwargs))
            except BaseException as e:
                out = (False, e)
        finally:
            sys.settrace(None)
        out = pickle.dumps(out)
        os.write(up, b"R" + struct.pack("i", len(out)))
        while out:
            out = out[os.write(up, out) :]
        os._exit(0)

    def go(self, burst):
        """Lets the process run; True if it finished its task."""
        os.write(self.down, struct.pack("i", burst))
        what = os.read(self.up, 1)
        if what == b"Y":
            return False
        if what != b"R":
            raise RuntimeError("worker process ended unexpectedly")
        n = struct.unpack("i", os.read(self.up, 4))[0]
        buf = b""
        while len(buf) < n:
            buf += os.read(self.up, n - len(buf))
        self.end()
        self.result = pickle.loads(buf)
        return True

    def end(self, kill=False):
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.close(self.down)
        os.close(self.up)
        os.waitpid(self.pid, 0)


class SimFuture(cf.Future):
    pool = None

    def result(self, timeout=None):
        self.pool._until(self)
        return super().result(timeout)

    def exception(self, timeout=None):
        self.pool._until(self)
        return super().exception(timeout)


class SimPool(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), *, max_tasks_per_child=None):  # fmt: skip
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.sim = current
        self.pending = []
        self.active = []  # forked workers
        self.last = None
        self.max_workers = max_workers or 8
        self.broken = False
        self.closed = False
        pools.append(self)

    def submit(self, fn, /, *args, **kwargs):
        if self.broken:
            raise BrokenProcessPool("A child process terminated abruptly")
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture()
        fut.pool = self
        task = pickle.dumps((fn, args, kwargs))
        self.pending.append((fut, task, len(self.sim.order)
                             + len(self.pending)))  # fmt: skip
        return fut

    def _interleaved_step(self):
        rng = self.sim.rng
        if self.pending and len(self.active) < self.max_workers and (
            not self.active or rng.random() < 0.5
        ):
            fut, task, num = self.pending.pop(rng.randrange(
                len(self.pending)))  # fmt: skip
            if not fut.set_running_or_notify_cancel():
                return
            self.sim.order.append(num)
            doomed = self.sim.started in self.sim.deaths
            self.sim.started += 1
            w = Worker(fut, task, num, rng.randint(1, 12) if doomed else None)
            self.active.append(w)
            return
        w = rng.choice(self.active)
        if w is not self.last:
            self.sim.switches += 1
        self.last = w
        done = w.go(rng.choice([1, 1, 2, 3, 5, 8, 20, 60]))
        if w.doomed is not None:
            w.doomed -= 1
            if done or w.doomed <= 0:
                if not done:
                    w.end(kill=True)
                self.active.remove(w)
                self._break(w.fut)
                return
        if done:
            self.active.remove(w)
            ok, out = w.result
            if ok:
                w.fut.set_result(out)
            else:
                w.fut.set_exception(out)

    def _break(self, fut):
        """A worker died: none of the others gets any further."""
        self.sim.died += 1
        self.broken = True
        dead = BrokenProcessPool("A process in the process pool was "
                                 "terminated abruptly")  # fmt: skip
        fut.set_exception(dead)
        for w in self.active:
            w.end(kill=True)
            w.fut.set_exception(dead)
        for other, _, _ in self.pending:
            if other.set_running_or_notify_cancel():
                other.set_exception(dead)
        self.active, self.pending = [], []

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return super().map(fn, *iterables)

    def _step(self):
        if self.sim.interleave:
            self._interleaved_step()
            return
        i = self.sim.rng.randrange(len(self.pending))
        fut, task, num = self.pending.pop(i)
        if not fut.set_running_or_notify_cancel():
            return
        self.sim.order.append(num)
        nth = self.sim.started
        self.sim.started += 1
        fn, args, kwargs = pickle.loads(task)
        err = None
        try:
            out = pickle.dumps(fn(*args, **kwargs))
        except BaseException as e:
            err = pickle.loads(pickle.dumps(e))
        if nth in self.sim.deaths:
            # The worker dies before it has sent its result.
            self._break(fut)
        elif err is not None:
            fut.set_exception(err)
        else:
            fut.set_result(pickle.loads(out))

    def _until(self, fut):
        while not fut.done() and (self.pending or self.active):
            self._step()

    def drain(self):
        while self.pending or self.active:
            self._step()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for f, _, _ in self.pending:
                f.cancel()
        self.drain()


def install():
    import concurrent.futures.process as cfp

    cf.ProcessPoolExecutor = SimPool
    cfp.ProcessPoolExecutor = SimPool
    for name in ("as_completed", "wait"):
        real = getattr(cf, name)

        def patched(fs, *args, _real=real, **kwargs):
            for p in pools:
                p.drain()
            return _real(fs, *args, **kwargs)

        setattr(cf, name, patched)
