"""Shared machinery of the batch properties: workloads, cluster and reference."""
import contextlib
import copy

import joblib
import numpy as np

from .. import zoo
from ..backends import Cluster
from ..clock import Clock
from ..core import Violation, InvalidPlan

BACKENDS = ("default", "default", "loky", "multiprocessing", "threading",
            "threading", "threading")
REAL = ("robuststats (all of it, unmodified)", "joblib.Parallel dispatch/retrieval",
        "joblib BatchedCalls, pickle and cloudpickle transport", "numpy, scipy, "
        "scikit-learn", "CPython threads (one runs at a time)")
STUB = ("joblib worker pools (simulated processes and threads)",
        "clocks and sleep (virtual)", "process crash, memory-mapped input "
        "(read-only arrays in the worker)")
ASSUMES = ("A simulated worker process is an isolated pickle round trip with its "
           "own numpy generator state, run inside the simulator's process.",
           "Threads are pre-empted between lines of the package and of the "
           "workload estimators, not inside numpy or scikit-learn.",
           "BLAS runs single-threaded.")


def draw_cluster(rng):
    return {"cpus": rng.choice([2, 3, 4, 8]), "readonly": rng.random() < .5,
            "reseed": rng.random() < .5, "max_batch": rng.choice([1, 2, 5, 12]),
            "straggler": rng.choice([0, 2, 6])}


def draw_jobs(rng):
    """(n_jobs, backend, config n_jobs or None)"""
    b = rng.choice(BACKENDS)
    n = rng.choice([1, 2, 2, 3, 4, 5, 16, -1, -1, -2, None, None])
    return {"n_jobs": n, "backend": b,
            "outer": rng.choice([None, 2, 3, 7]) if n is None else None}


@contextlib.contextmanager
def cluster(plan, ctx):
    with Clock(tick=plan.get("tick", 1e-4)) as ck:
        cl = Cluster(ctx, ck, ctx.mon, plan["cluster"])
        with cl:
            try:
                yield cl
            finally:
                if cl.threads is not None:
                    ctx.switches += cl.threads.switches
                    if cl.threads.switches:
                        ctx.nontrivial = True
                    ctx.event("threads", cl.threads.switches, cl.threads.trace)
                    cl.threads.kill_all()
                ctx.event("order", cl.completed_order)
                ctx.sim_time += ck.mono - 1000.0


def concurrently(plan, ctx, fns):
    """Results of callers in threads of one process, under a seeded schedule."""
    from ..sched import Sched
    with Clock(tick=plan.get("tick", 1e-4)) as ck:
        s = Sched(ctx.mon, ctx.choose)
        tasks = [s.spawn("caller%d" % i, f) for i, f in enumerate(fns)]
        try:
            s.run()
        finally:
            s.kill_all()
        ctx.sim_time += ck.mono - 1000.0
        ctx.switches += s.switches
        if s.switches > len(tasks):
            ctx.fault("preemption", s.switches)
        ctx.event("callers", s.switches, s.trace)
    for t in tasks:
        if t.exc is not None:
            raise t.exc
    return [t.result for t in tasks], s.trace


@contextlib.contextmanager
def config(job):
    kw = {}
    if job["backend"] != "default":
        kw["backend"] = job["backend"]
    if job["outer"]:
        kw["n_jobs"] = job["outer"]
    if kw:
        with joblib.parallel_config(**kw):
            yield
    else:
        yield


def guard_params(x):
    return np.array(x, copy=True)


def tol_of(dtype):
    return 2e-4 if np.dtype(dtype).itemsize in (4,) and np.dtype(dtype).kind == "f" \
        or np.dtype(dtype) == np.complex64 else 1e-8


def compare(got, want, what, i, tol):
    if not zoo.close(got, want, tol):
        raise Violation("wrong-result:" + what, "trial %d: got %r want %r" % (
            i, np.asarray(got).ravel()[:4].tolist() if not isinstance(got, list) else got,
            np.asarray(want).ravel()[:4].tolist() if not isinstance(want, list) else want))


def state(est):
    """The public attributes of an estimator object, deep-copied."""
    d = {}
    for k, v in vars(est).items():
        if not k.startswith("_"):
            d[k] = copy.deepcopy(v)
    return d


def state_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return k
        x, y = a[k], b[k]
        try:
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                if not (np.shape(x) == np.shape(y)
                        and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)):
                    return k
            elif isinstance(x, dict) and isinstance(y, dict):
                if state_diff(x, y):
                    return k
            elif hasattr(x, "get_params") and hasattr(y, "get_params"):
                if state_diff(state(x), state(y)):
                    return k
            elif x != y and not (x != x and y != y):
                return k
        except TypeError:
            continue
        except ValueError:
            return k
    return None


def reset_counts(est):
    """Counters of its own fits start again: a fresh copy starts from zero."""
    if hasattr(est, "seen_"):
        est.seen_ = 0
    if hasattr(est, "book_"):
        est.book_["fits"] = 0


REPEATS = ("no",) * 5 + ("all", "pairs", "ends", "head")


def draw_repeat(rng):
    return rng.choice(REPEATS)


def repeat_trials(X, how):
    """Trials that look alike: equal neighbours, equal ends, equal beginnings."""
    n = len(X)
    if how == "all":
        X[:] = X[:1]
    elif how == "pairs":
        X[1::2] = X[0:n - n % 2:2]
    elif how == "ends" and n:
        X[n - 1] = X[0]
    elif how == "head":
        k = X.shape[1] // 2
        X[:, :k] = X[:1, :k]
    return X


CHANGES = ("set_params", "nested", "prototype")


def change(tr, proto, how, spec, make):
    """Give the transformer an estimator with other parameters; the one in use."""
    if how == "set_params":
        proto = make(spec)
        tr.set_params(estimator=proto)
    elif how == "nested":
        tr.set_params(**{"estimator__" + k: v for k, v in spec["params"].items()})
    elif how == "prototype":
        proto.set_params(**spec["params"])
    return proto


def untouched(what, proto, before):
    k = state_diff(before, state(proto))
    if k is not None:
        raise Violation("prototype-modified", "%s: %s" % (what, k))
