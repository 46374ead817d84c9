"""Simulated joblib execution backends.

SimProcess: workers are processes in every observable respect - tasks and
results cross a pickle boundary, large arrays arrive as read-only maps, every
worker has its own global numpy generator state, a worker can be slow or die.
SimThread: workers are real threads under the cooperative scheduler.
"""
import heapq
import pickle

import cloudpickle
import joblib
import joblib.parallel as jp
import numpy as np
from joblib._parallel_backends import (
    FallbackToBackend, ParallelBackendBase, SequentialBackend)
from joblib.externals.loky.process_executor import TerminatedWorkerError

from .sched import Sched, Deadlock


class _Out:
    def __init__(self, result=None, exc=None):
        self.result, self.exc = result, exc


class Cluster:
    """One simulated machine. cfg keys (all optional):
    cpus, readonly (bool), reseed (bool: spawned workers start from OS entropy
    stand-in states), crash ({task, when}), submit_fail (k), interrupt_poll (k),
    max_batch, straggler (probability numerator /16)."""

    def __init__(self, ctx, clock, mon, cfg):
        self.ctx, self.clock, self.mon, self.cfg = ctx, clock, mon, cfg
        self.choose = ctx.choose
        self.events = []
        self.seq = 0
        self.inflight = 0
        self.polls = 0
        self.idle_polls = 0
        self.executed = 0
        self.submitted = 0
        self.completed_order = []
        self.threads = None
        self.rng_states = {}
        self.backends = []
        self.closed = False
        clock.on_sleep = self.pump

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.events, (self.clock.mono + delay, self.seq, fn))

    def pump(self, s):
        self.polls += 1
        if self.cfg.get("interrupt_poll") == self.polls:
            self.ctx.fault("interrupt_while_waiting")
            raise KeyboardInterrupt("injected while waiting for workers")
        busy = False
        for b in self.backends:
            busy = b.progress() or busy
        n = 0
        while self.events and self.events[0][0] <= self.clock.mono:
            _, _, fn = heapq.heappop(self.events)
            fn()
            n += 1
        if not n and not busy:
            if self.events:
                # discrete-event time: jump to the next event
                self.clock.mono = max(self.clock.mono, self.events[0][0])
            else:
                self.idle_polls += 1
                if self.idle_polls > 2000:
                    raise Deadlock("parent waits for tasks nobody runs")
        else:
            self.idle_polls = 0

    # -- installing --------------------------------------------------------
    def __enter__(self):
        cl = self

        class Proc(SimProcess):
            cluster = cl

        class Thr(SimThread):
            cluster = cl
        self._saved = dict(jp.BACKENDS)
        for n in list(jp.BACKENDS):
            if n == "threading":
                jp.BACKENDS[n] = Thr
            elif n != "sequential":
                jp.BACKENDS[n] = Proc
        self._cpu = (jp.cpu_count, joblib.cpu_count)
        jp.cpu_count = joblib.cpu_count = lambda *a, **k: cl.cfg.get("cpus", 4)
        return self

    def __exit__(self, *a):
        jp.BACKENDS.clear()
        jp.BACKENDS.update(self._saved)
        jp.cpu_count, joblib.cpu_count = self._cpu
        self.closed = True

    def batch_size(self):
        return 1 + self.choose(self.cfg.get("max_batch", 4), "batch")

    def duration(self):
        k = self.choose(16, "duration")
        if k < self.cfg.get("straggler", 2):
            self.ctx.fault("straggler")
            return 30.0 + k
        return 0.001 + 0.02 * self.choose(8, "jitter")


class _Base(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    cluster = None

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            n_jobs = max(self.cluster.cfg.get("cpus", 4) + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        n = self.effective_n_jobs(n_jobs)
        if n == 1:
            raise FallbackToBackend(
                SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self.n_workers = n
        self.queue = []
        self.busy = {}
        self.dead = False
        if self not in self.cluster.backends:
            self.cluster.backends.append(self)
        return n

    def compute_batch_size(self):
        return self.cluster.batch_size()

    def retrieve_result_callback(self, out):
        if out.exc is not None:
            raise out.exc
        return out.result

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

    def _check_submit(self):
        cl = self.cluster
        cl.submitted += 1
        if cl.cfg.get("submit_fail") == cl.submitted:
            cl.ctx.fault("submit_fails")
            raise OSError(12, "injected: cannot allocate memory for worker")

    def terminate(self):
        self.queue = []


def _readonly(batch):
    for _, args, kwargs in getattr(batch, "items", ()):
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, np.ndarray):
                a.flags.writeable = False


class SimProcess(_Base):
    supports_sharedmem = False
    uses_threads = False

    def submit(self, func, callback=None):
        self._check_submit()
        job = [func, callback, self.cluster.submitted]
        self.queue.append(job)
        self._fill()
        return job

    apply_async = submit

    def progress(self):
        return False

    def _fill(self):
        cl = self.cluster
        while self.queue and len(self.busy) < self.n_workers and not self.dead:
            job = self.queue.pop(0)
            free = [w for w in range(self.n_workers) if w not in self.busy]
            w = free[cl.choose(len(free), "worker") if len(free) > 1 else 0]
            self.busy[w] = job
            try:
                blob = cloudpickle.dumps(job[0])
            except BaseException as e:
                job.append(("exc", e))
                blob = None
            cl.at(cl.duration(), lambda w=w, j=job, b=blob: self._finish(w, j, b))

    def _finish(self, w, job, blob):
        if self.busy.get(w) is not job:
            return                              # aborted meanwhile
        cl = self.cluster
        crash = cl.cfg.get("crash")
        k = cl.executed
        cl.executed += 1
        if crash and crash["task"] == k and crash["when"] == "start":
            return self._die()
        if blob is None:
            out = _Out(exc=job[3][1])
        else:
            out = self._execute(w, blob)
        if crash and crash["task"] == k:
            return self._die()
        del self.busy[w]
        cl.completed_order.append(job[2])
        job[1](out)
        self._fill()

    def _execute(self, w, blob):
        cl = self.cluster
        mine = np.random.get_state()
        st = cl.rng_states.get(w)
        if st is None:
            # a forked worker inherits the parent's state, a spawned one has its own
            if cl.cfg.get("reseed"):
                np.random.seed(cl.choose(2 ** 31, "worker_seed"))
        else:
            np.random.set_state(st)
        try:
            try:
                batch = pickle.loads(blob)
                if cl.cfg.get("readonly"):
                    cl.ctx.fault("readonly_memmap")
                    _readonly(batch)
                res = batch()
                return _Out(result=pickle.loads(cloudpickle.dumps(res)))
            except (SystemExit, KeyboardInterrupt, Exception) as e:
                tb = e.__traceback__
                try:
                    e2 = pickle.loads(cloudpickle.dumps(e))
                    e2.__traceback__ = tb
                    e2.__cause__ = None
                except Exception:
                    e2 = RuntimeError("unpicklable worker exception: %r" % (e,))
                return _Out(exc=e2)
        finally:
            cl.rng_states[w] = np.random.get_state()
            np.random.set_state(mine)

    def _die(self):
        cl = self.cluster
        cl.ctx.fault("worker_killed")
        self.dead = True
        jobs = list(self.busy.values()) + self.queue
        self.busy, self.queue = {}, []
        for j in jobs:
            j[1](_Out(exc=TerminatedWorkerError(
                "injected: a worker process was terminated")))

    def abort_everything(self, ensure_ready=True):
        self.queue, self.busy = [], {}
        self.dead = False


class SimThread(_Base):
    supports_sharedmem = True
    uses_threads = True

    def configure(self, *a, **k):
        n = super().configure(*a, **k)
        cl = self.cluster
        if cl.threads is None:
            cl.threads = Sched(cl.mon, cl.choose)
        self.done = []
        return n

    def submit(self, func, callback=None):
        self._check_submit()
        job = [func, callback, self.cluster.submitted]
        self.queue.append(job)
        return job

    apply_async = submit

    def _worker(self):
        cl = self.cluster
        while self.queue:
            job = self.queue.pop(0)
            try:
                out = _Out(result=job[0]())
            except Exception as e:
                out = _Out(exc=e)
            self.done.append((job, out))
            cl.threads.yield_now()

    def progress(self):
        cl = self.cluster
        for t in self.busy.values():
            if t.done and t.exc is not None:
                raise t.exc
        alive = [t for t in self.busy.values() if not t.done]
        self.busy = {i: t for i, t in enumerate(alive)}
        while self.queue and len(self.busy) < min(self.n_workers, 8) \
                and len(self.busy) < len(alive) + len(self.queue):
            self.busy[len(self.busy)] = cl.threads.spawn("w%d" % len(cl.threads.tasks),
                                                         self._worker)
        if not self.busy and not self.done:
            return False
        n = 1 + cl.choose(24, "burst")
        prev = self.cluster.mon.sched
        cl.mon.set_sched(cl.threads)
        try:
            for _ in range(n):
                if not cl.threads.step():
                    break
        finally:
            cl.mon.set_sched(prev)
        while self.done:
            i = cl.choose(len(self.done), "completion") if len(self.done) > 1 else 0
            job, out = self.done.pop(i)
            cl.executed += 1
            cl.completed_order.append(job[2])
            job[1](out)
        return True

    def abort_everything(self, ensure_ready=True):
        self.queue = []
