"""C15 progress output and logging never change a result."""
import contextlib
import functools
import gc
import io
import logging
import sys

import numpy as np
import tqdm

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E
from . import _online as O

RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("one per (operations, kind of streams and handlers, log level, which write or "
        "log call failed with what, outcome) of runs with verbose output or a fault")
REAL = E.REAL + ("tqdm progress bars", "logging")
STUB = ("standard output and error streams (in memory, failing or slow at chosen writes)",
        "log handlers and filters of the application (failing, fitting, slow)",
        "tqdm's monitor thread (its refresh is called at chosen clock reads)",
        "clock (virtual, with jumps)", "process without history and output (forked)")
ASSUMES = ("A fault of a stream or handler is the exception that it raises.",)
SHRINK_LISTS = ("ops", "jumps", "monitor")
SHRINK_INTS = {"n": 12, "at": 0}
STREAMS = ("ok", "ok", "tty", "slow", "ascii", "full", "pipe", "eio", "closed", "memory",
           "interrupt", "flush", "none", "short")
HANDLERS = ("none", "none", "stream", "raise", "interrupt", "fits", "filter", "slow")


def gen(rng, tier):
    ops = []
    what = rng.choice(["fit"] * 5 + ["online"] * 3 + ["batch"] * 2)
    if what == "online":
        spec = None
    elif what == "batch":
        spec = E.draw_spec(rng, zoo.FP, natgrad=False)
    else:
        spec = E.draw_spec(rng, slow=rng.random() < .5)
        if rng.random() < .12 and "Tyler" not in spec["cls"]:
            spec = {"cls": "TylerShapeMatrix",
                    "params": {"method": "natural gradient", "normalisation": "trace"}}
    for _ in range(rng.choice([1, 2, 2, 3])):
        o = {"verb": rng.choice([True, True, True, False]),
             "err": rng.choice(STREAMS), "out": rng.choice(STREAMS),
             "handler": rng.choice(HANDLERS), "level": rng.choice([0, 10, 10, 20, 30, 50]),
             "raising": rng.random() < .5, "bars": rng.random() < .85,
             "at": rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30, 80]), "again": rng.random() < .5,
             "tick": rng.choice([0.0, 1e-4, .05, .3, 5.0]),
             "jumps": [[rng.randrange(60), rng.choice([.2, 2.0, 60.0, 1e5, -3.0, -1e5])]
                       for _ in range(rng.choice([0, 0, 1, 2]))],
             "monitor": [rng.randrange(80) for _ in range(rng.choice([0, 0, 1, 3]))]}
        if what == "online":
            o.update(n=rng.choice([1, 3, 8, 20]), seed=rng.randrange(10 ** 6),
                     lr=rng.choice([.02, .1]), cost=rng.random() < .6,
                     upd=rng.choice(["inverse iteration", "constant"]))
        else:
            o["fit"] = E.draw_fit(rng, spec, p=rng.choice([2, 3]))
            if what == "batch":
                o["trials"] = rng.choice([0, 1, 2, 4])
                o["fit"]["init"] = None
        ops.append(o)
    return {"what": what, "spec": spec, "ops": ops}


# ---------------------------------------------------------------------------
# the output side of the world
# ---------------------------------------------------------------------------
class World:
    def __init__(self, o, clock, ctx):
        self.o, self.clock, self.ctx = o, clock, ctx
        self.calls = 0
        self.raised = []
        self.written = 0

    def strike(self, exc):
        """Raise at the at-th call, and at all later ones if it is to last."""
        i = self.calls
        self.calls += 1
        at = self.o["at"]
        if i == at or (i > at and self.o["again"]):
            self.raised.append(exc)
            raise exc


class Stream(io.TextIOBase):
    def __init__(self, kind, world):
        self.kind, self.world = kind, world
        self.tail = ""

    @property
    def encoding(self):
        return "ascii" if self.kind == "ascii" else "utf-8"

    def isatty(self):
        return self.kind in ("tty", "slow", "eio")

    def writable(self):
        return True

    def write(self, s):
        w, k = self.world, self.kind
        w.written += 1
        if k == "slow":
            w.clock.advance(1.7)
        elif k == "full":
            w.strike(OSError(28, "No space left on device"))
        elif k == "pipe":
            w.strike(BrokenPipeError(32, "Broken pipe"))
        elif k == "eio":
            w.strike(OSError(5, "Input/output error"))
        elif k == "closed":
            w.strike(ValueError("I/O operation on closed file"))
        elif k == "memory":
            w.strike(MemoryError())
        elif k == "interrupt":
            w.strike(KeyboardInterrupt())
        elif k == "ascii":
            try:
                s.encode("ascii")
            except UnicodeEncodeError as e:
                w.raised.append(e)
                raise
        elif k == "short":
            return max(0, len(s) - 1)
        return len(s)

    def flush(self):
        if self.kind == "flush":
            self.world.strike(OSError(5, "Input/output error"))


class Simulated(Exception):
    pass


class Handler(logging.Handler):
    def __init__(self, kind, world, est):
        super().__init__()
        self.kind, self.world, self.est, self.busy = kind, world, est, False

    def emit(self, record):
        self.world.written += 1
        record.getMessage()
        if self.kind == "raise":
            self.world.strike(Simulated("handler"))
        elif self.kind == "interrupt":
            self.world.strike(KeyboardInterrupt())
        elif self.kind == "slow":
            self.world.clock.advance(40.0)
        elif self.kind == "fits" and not self.busy:
            self.busy = True
            try:
                from robuststats.estimation.covariance import TylerShapeMatrix
                rs = np.random.RandomState(3)
                TylerShapeMatrix(iter_max=2).fit(rs.randn(9, 2))
            finally:
                self.busy = False


class Filter(logging.Filter):
    def __init__(self, world):
        super().__init__()
        self.world = world

    def filter(self, record):
        self.world.strike(Simulated("filter"))
        return True


class Ticking(Clock):
    """tqdm's monitor looks at the bars at chosen reads of the clock."""

    def __init__(self, monitor, **k):
        super().__init__(**k)
        self.monitor = set(monitor)
        self.refreshed = 0
        self.inside = False
        self.low, self.rise = np.inf, 0.0

    def time(self):
        t = super().time()
        self.low = min(self.low, t)
        self.rise = max(self.rise, t - self.low)
        if self.reads in self.monitor and not self.inside:
            self.inside = True
            try:
                for bar in list(getattr(tqdm.tqdm, "_instances", ())):
                    bar.miniters = 1
                    bar.refresh(nolock=True)
                    self.refreshed += 1
            except Exception:
                pass                # the monitor thread would die, not the caller
            finally:
                self.inside = False
        return t


@contextlib.contextmanager
def surroundings(o, ctx, est):
    clock = Ticking(o["monitor"], tick=o["tick"], jumps=o["jumps"])
    w = World(o, clock, ctx)
    root = logging.getLogger()
    saved = (sys.stdout, sys.stderr, root.handlers[:], root.level, root.filters[:],
             logging.raiseExceptions, logging.root.manager.disable, sys.unraisablehook)
    init = tqdm.tqdm.__init__
    try:
        if not o.get("bars", True):
            # an application that wants no progress bars at all
            tqdm.tqdm.__init__ = functools.partialmethod(init, disable=True)
            ctx.fault("bars_disabled")
        sys.unraisablehook = lambda *a: None
        root.handlers[:] = []
        root.setLevel(o["level"])
        logging.disable(0)
        logging.raiseExceptions = o["raising"]
        err = None if o["err"] == "none" else Stream(o["err"], w)
        if o["handler"] == "stream":
            root.addHandler(logging.StreamHandler(Stream(o["err"], w)))
        elif o["handler"] == "filter":
            h = Handler("ok", w, est)
            h.addFilter(Filter(w))
            root.addHandler(h)
        elif o["handler"] != "none":
            root.addHandler(Handler(o["handler"], w, est))
        sys.stderr = err
        sys.stdout = None if o["out"] == "none" else Stream(o["out"], w)
        with clock:
            yield w
            w.blamed = list(w.raised)
            gc.collect()
    finally:
        tqdm.tqdm.__init__ = init
        (sys.stdout, sys.stderr, root.handlers[:], level, root.filters[:],
         logging.raiseExceptions, dis, sys.unraisablehook) = saved
        root.setLevel(level)
        logging.disable(dis)
        for bar in list(getattr(tqdm.tqdm, "_instances", ())):
            bar.disable = True
        with contextlib.suppress(Exception):
            tqdm.tqdm._instances.clear()


def blame(e, raised, depth=0):
    """The exception is, or was caused by, one that the streams raised."""
    if e is None or depth > 8:
        return False
    return any(e is r for r in raised) or blame(e.__cause__, raised, depth + 1) \
        or blame(e.__context__, raised, depth + 1)


def guarded(o, ctx, est, call):
    """call() in the surroundings; (value, exception) with the exception one
    that the surroundings are to blame for."""
    val = exc = None
    with surroundings(o, ctx, est) as w:
        try:
            val = call()
        except (Exception, KeyboardInterrupt) as e:
            exc = e
            if not blame(e, w.raised) and not (
                    "none" in (o["err"], o["out"]) and isinstance(e, AttributeError)
                    and "NoneType" in str(e)):
                raise Violation("unexpected:" + type(e).__name__,
                                "%r with %s" % (e, brief(o))) from e
            e.__traceback__ = None
    ctx.sim_time += abs(w.clock.wall - w.clock.start)
    n = len(w.raised)
    for kind, fired in (("clock_jump", w.clock.fired), ("monitor_refresh", w.clock.refreshed),
                        ("stream_or_handler_error", n)):
        if fired:
            ctx.fault(kind, fired)
    if o["tick"] == 0:
        ctx.probe("clock_stalled")
    if w.written:
        ctx.nontrivial = True
    ctx.event(w.written, n, type(exc).__name__, w.clock.reads)
    first = [type(r).__name__ for r in w.raised[:1]]
    o["limit"] = w.clock.rise > 900
    return val, exc, (o["verb"], o["err"], o["out"], o["handler"], o["level"],
                      o["at"] if n else None, tuple(first), type(exc).__name__)


def brief(o):
    return {k: o[k] for k in ("verb", "err", "out", "handler", "level", "at", "again",
                              "raising", "bars") if k in o}


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    # bars of the run live in its own clock
    {"fit": fits, "online": online, "batch": batch}[plan["what"]](plan, ctx)


def silent(fn):
    def call():
        logging.disable(60)
        with Clock(tick=1e-6):
            np.random.seed(5)
            return fn()
    return E.pristine(call)


def fits(plan, ctx):
    spec = plan["spec"]
    est = zoo.build(spec)
    sigs = []
    for o in plan["ops"] + [None]:
        last = o is None
        fit = plan["ops"][-1]["fit"] if last else o["fit"]
        if zoo.gradient_spec(spec) and fit["init"] is None:
            fit = dict(fit, init=1)
        try:
            want = silent(lambda: E.reference(spec, fit))
        except E.PeerFailure as e:
            ctx.probe("reference_fails")
            return
        if last:
            est.verbosity = False
            with Clock(tick=1e-6):
                E.run_fit(est, spec, fit)
            E.check_same(zoo.learned(est), want, "damaged-by-output")
            break
        before = zoo.learned(est)
        if hasattr(est, "verbosity"):
            est.verbosity = (2 if o["verb"] else 0) \
                if spec["cls"] == "KroneckerStudent" else o["verb"]
        X, kw = zoo.make_data(fit["data"]), E.fit_kw(spec, fit)
        _, exc, sig = guarded(o, ctx, est, lambda: est.fit(X, **kw))
        sigs.append(sig)
        if exc is None and E.slow(spec) and o["limit"]:
            ctx.probe("time_limit_of_solver")           # C14
        elif exc is None:
            E.check_same(zoo.learned(est), want, "output-changed-result")
        else:
            k = zoo.exact(zoo.learned(est), before)
            if k is not None:
                raise Violation("failed-output-changed-state", "%s after %r with %s"
                                % (k, exc, brief(o)))
    ctx.sig("fit", spec["cls"], spec["params"].get("method"), tuple(sigs))


def batch(plan, ctx):
    from robuststats.estimation.base import CovariancesEstimation
    spec = plan["spec"]
    sigs = []
    for o in plan["ops"]:
        S = zoo.make_stack(o["fit"]["data"], o["trials"])
        if len(S) == 0:
            S = zoo.make_stack(o["fit"]["data"], 1)

        def run(verb):
            e = zoo.build(spec)
            e.verbosity = verb
            return CovariancesEstimation(e).fit_transform(S)
        try:
            want = silent(lambda: run(False))
        except E.PeerFailure:
            ctx.probe("reference_fails")
            return
        got, exc, sig = guarded(o, ctx, None, lambda: run(o["verb"]))
        sigs.append(sig)
        if exc is None and not zoo.close(np.asarray(got), want):
            raise Violation("output-changed-result", "batch with %s" % brief(o))
    ctx.sig("batch", spec["cls"], tuple(sigs))


def online(plan, ctx):
    from robuststats.online.estimation import StochasticGradientCovarianceEstimator
    est = StochasticGradientCovarianceEstimator(O.HPD(), O.rgrad_gauss, .1)
    sigs = []
    for o in plan["ops"]:
        rs = np.random.RandomState(o["seed"])
        X = rs.randn(o["n"], 2) + 1j * rs.randn(o["n"], 2)
        init = zoo.spd(rs, 2, True)

        def states():
            e = StochasticGradientCovarianceEstimator(O.HPD(), O.rgrad_gauss, o["lr"])
            out = []
            for k in range(o["n"] + 1):
                e.fit(X[:k], init=init, lr_update=o["upd"])
                out.append((np.array(e.estimate_), np.array(e.covariance_)))
            return out
        path = silent(states)
        est.lrate, est.verbosity = o["lr"], o["verb"]
        est.cost = O.cost_half if o["cost"] else None
        before = (None if est.estimate_ is None else np.array(est.estimate_))
        _, exc, sig = guarded(o, ctx, est, lambda: est.fit(X, init=init, lr_update=o["upd"]))
        sigs.append((sig, o["n"], o["cost"]))
        now = est.estimate_
        if exc is None:
            if not zoo.close(now, path[-1][0]):
                raise Violation("output-changed-result", "online with %s" % brief(o))
            at = o["n"]
        else:
            at = [k for k, s in enumerate(path) if now is not None and zoo.close(now, s[0])]
            if not at and not zoo.close(now, before):
                raise Violation("failed-output-changed-state", "online after %r with %s"
                                % (exc, brief(o)))
            if not at:
                continue
            at = at[-1]
        if not zoo.close(est.covariance_, path[at][1]):
            raise Violation("failed-output-changed-state", "covariance after %r" % exc)
        # the step after the samples applied so far is the next one
        x = rs.randn(1, 2) + 0j

        def more():
            e = StochasticGradientCovarianceEstimator(O.HPD(), O.rgrad_gauss, o["lr"])
            e.fit(np.concatenate([X[:at], x]), init=init, lr_update=o["upd"])
            return np.array(e.estimate_)
        want = silent(more)
        with Clock(tick=1e-6):
            est.update(x, o["upd"])
        if not zoo.close(est.estimate_, want):
            raise Violation("damaged-by-output", "online: step after %d samples" % at)
    ctx.sig("online", tuple(sigs))
