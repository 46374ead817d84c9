"""C17 an online update happens entirely or not at all."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _stream as S

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("one per (model, operations, place and kind of every fault that fired, number of "
        "attempts) of runs with a fault")
REAL = E.REAL
STUB = ("failing user callbacks and library calls, interrupts (injected exceptions)",
        "the source that repeats a sample until it is acknowledged", "clock (virtual)")
ASSUMES = ("User callbacks do not modify their arguments.",
           "Interrupts are delivered on return of library calls.")
SHRINK_LISTS = ("ops", "attempts")
SHRINK_INTS = {"n": 1, "at": 0}
KINDS = ("rgrad", "retr", "tocov", "cost", "nan", "memory", "interrupt", "shape", "kill",
         "half", "stop", "stop", "signal")
CALLBACKS = ("rgrad", "retr", "tocov", "cost")


def gen(rng, tier):
    m = S.draw_model(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        ops.append({"op": rng.choice(["update"] * 4 + ["fit", "fit", "set"]),
                    "n": rng.choice([1, 2, 3, 6]), "s": rng.randrange(10 ** 6),
                    "upd": rng.choice(["inverse iteration", "inverse iteration", "constant"]),
                    "attempts": [{"kind": rng.choice(KINDS), "where": rng.random(),
                                  "at": rng.choice([0, 0, 1, 2, 4]),
                                  "after": rng.random() < .5,
                                  "cb": rng.choice(CALLBACKS),
                                  "exc": rng.choice(sorted(EXC))}
                                 for _ in range(rng.choice([0, 1, 1, 2, 3]))]})
    return {"model": m, "lr": rng.choice(S.MODELS[m["name"]].lrs), "ops": ops,
            "verb": rng.random() < .2, "cost": rng.random() < .3,
            "source": rng.randrange(10 ** 6), "store": rng.random() < .8,
            "plain": rng.random() < .5, "first": rng.random() < .8}


class Callback(Exception):
    pass


class Killed(SystemExit):
    """What a user's signal handler raises."""


EXC = {c.__name__: c for c in (
    Callback, ValueError, FloatingPointError, ZeroDivisionError, StopIteration, KeyError,
    OSError, RuntimeError, TypeError, AttributeError, IndexError, AssertionError,
    NotImplementedError, TimeoutError, np.linalg.LinAlgError, RuntimeWarning)}


class Flaky:
    """A callback of the user which fails, or answers nonsense, at one call."""

    def __init__(self, fn):
        self.fn, self.at, self.kind, self.n, self.fired = fn, None, None, 0, False

    def arm(self, kind, at, after, exc="Callback"):
        self.what = exc
        self.kind, self.at, self.after, self.n, self.fired = kind, at, after, 0, False

    def disarm(self):
        self.at = None

    def __call__(self, *a):
        hit = self.at is not None and self.n == self.at
        self.n += 1
        if hit and not self.after and self.kind not in ("nan", "shape", "half"):
            self.fired = True
            raise self.exc()
        r = self.fn(*a)
        if not hit:
            return r
        self.fired = True
        if self.kind == "nan":
            return spoil(r)
        if self.kind == "shape":
            return reshape(r)
        if self.kind == "half" and isinstance(r, (list, tuple)):
            return type(r)(r[:1]) if type(r) in (list, tuple) else list(r)[:1]
        raise self.exc()

    def exc(self):
        return {"stop": KeyboardInterrupt, "kill": SystemExit,
                "memory": MemoryError}.get(self.kind, EXC[self.what])("injected")


def spoil(r):
    if isinstance(r, (list, tuple)):
        q = list(r)
        q[0] = spoil(q[0])
        return tuple(q) if type(r) is tuple else q
    r = np.array(r)
    r.flat[-1] = np.nan
    return r


def reshape(r):
    if isinstance(r, (list, tuple)):
        return reshape(r[0])[0]
    return np.asarray(r)[0]


class UserManifold:
    def __init__(self, man, flaky):
        self.man, self.flaky = man, flaky

    def retr(self, x, u):
        return self.flaky(x, u)


def assemble(plan, model):
    """The estimator with callbacks that can be made to fail."""
    est = model.est(plan["lr"], plan["cost"], plan["verb"])
    est.store_precision = plan["store"]
    man = est.manifold
    est.rgrad = Flaky(est.rgrad)
    est.manifold = UserManifold(man, Flaky(man.retr))
    if est.estimatetocov is not None or not plan["plain"]:
        est.estimatetocov = Flaky(est.estimatetocov or (lambda t: t))
    if est.cost is not None:
        est.cost = Flaky(est.cost)
    return est


def snapshot(est):
    d = {}
    for k in ("estimate_", "covariance_", "precision_"):
        d[k] = copy.deepcopy(getattr(est, k, "absent"))
    return d


def same(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if type(x) is not type(y):
                return k
        elif not zoo.close(x, y):
            return k
        elif type(x) is not type(y):
            return k
    return None


def arm(est, a):
    """Prepare the failure of one attempt; returns (monitor fault, callback)."""
    k = a["kind"]
    cbs = {"rgrad": est.rgrad, "retr": est.manifold.flaky,
           "tocov": est.estimatetocov or est.manifold.flaky, "cost": est.cost or est.rgrad}
    cb = {"nan": est.rgrad, "shape": est.manifold.flaky, "half": est.manifold.flaky,
          "kill": cbs[a["cb"]], "stop": cbs[a["cb"]]}.get(k, cbs.get(k))
    if cb is not None:
        cb.arm(k, a["at"], a["after"], a.get("exc", "Callback"))
        return None, cb
    mk = (lambda at: CallFault(at)) if k == "memory" else \
        (lambda at: CallFault(at, exc=Killed)) if k == "signal" else \
        (lambda at: InterruptAt(at, libraries=True))
    return mk, None


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-5):
        run(plan, ctx)


def run(plan, ctx):
    model = S.build(plan["model"])
    box = [assemble(plan, model)]
    rs = np.random.RandomState(plan["source"])
    sigs = []
    theta, k = None, 0
    if plan["first"]:
        theta = model.init(rs)
        box[0].set_estimate(copy.deepcopy(theta))
    for o in plan["ops"]:
        upd = o["upd"]
        if o["op"] == "update":
            if theta is None:
                continue
            for i in range(o["n"]):
                x = model.data(rs, 1)
                path = [(theta, k), advance(model, theta, k, plan["lr"], x, upd)]
                if not S.finite(model, path[1][0]):
                    ctx.probe("stream_diverged")
                    return
                deliver(plan, ctx, model, box, o, lambda e: e.update(x, upd), path, sigs,
                        attempts=o["attempts"] if i == o["n"] - 1 else [])
                theta, k = path[1]
        elif o["op"] == "set":
            th = model.init(np.random.RandomState(o["s"]))
            deliver(plan, ctx, model, box, o, lambda e: e.set_estimate(copy.deepcopy(th)),
                    [(theta, k), (th, k)], sigs)
            theta = th
        else:
            th, X = model.init(np.random.RandomState(o["s"])), model.data(rs, o["n"])
            path = [(theta, k), (th, 0)]
            for x in X:
                path.append(advance(model, path[-1][0], path[-1][1], plan["lr"],
                                    x[None], upd))
                if not S.finite(model, path[-1][0]):
                    ctx.probe("stream_diverged")
                    return
            deliver(plan, ctx, model, box, o,
                    lambda e: e.fit(X, init=copy.deepcopy(th), lr_update=upd),
                    path, sigs, X)
            theta, k = path[-1]
    if theta is not None:
        S.check(model, box[0], theta, "not-exactly-once", "%s at the end of %s" % (
            plan["model"]["name"], [o["op"] for o in plan["ops"]]))
    ctx.sig(plan["model"]["name"], tuple(sigs))


def advance(model, theta, k, lr, x, upd):
    return model.step(theta, x, lr / (k + 1) if upd == "inverse iteration" else lr), k + 1


def deliver(plan, ctx, model, box, o, call, path, sigs, X=None, attempts=None):
    """Attempt the operation with each fault until one attempt is complete; every
    attempt leaves a state of the fault-free path, whole."""
    for a in o["attempts"] if attempts is None else attempts:
        est = box[0]
        before, backup = snapshot(est), copy.deepcopy(est)
        flt, cb = arm(est, a)
        if flt is not None:
            twin, dry = copy.deepcopy(est), flt(None)
            ctx.mon.set_fault(dry)
            try:
                call(twin)
            finally:
                ctx.mon.set_fault(None)
            flt = flt(min(dry.n - 1, int(a["where"] * max(1, dry.n))))
        exc = None
        ctx.mon.set_fault(flt)
        try:
            call(est)
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            exc = e
        finally:
            ctx.mon.set_fault(None)
            if cb is not None:
                cb.disarm()
        fired = flt.fired if flt is not None else (cb.fired and a["kind"])
        detail = "%s %s: %s at %s, %s" % (plan["model"]["name"], o["op"], a["kind"], fired,
                                          a.get("exc"))
        ctx.event(o["op"], detail, type(exc).__name__)
        if exc is None and fired and a["kind"] in ("shape", "half"):
            ctx.probe("nonsense_accepted:" + a["kind"])
            box[0] = backup
            continue
        if exc is None and fired and a["kind"] != "memory":
            raise Violation("fault-hidden", detail)
        if exc is None:
            S.check(model, est, path[-1][0], "not-exactly-once", detail)
            return
        if not fired:
            raise exc
        ctx.fault(a["kind"])
        sigs.append((o["op"], a["kind"], a["at"], fired, type(exc).__name__))
        if o["op"] != "fit":
            bad = same(snapshot(est), before)
            if bad:
                raise Violation("partly-updated", "%s: %s" % (detail, bad))
            if path[0][0] is not None:
                next_step(plan, model, est, path[0], detail)
        else:
            whole(plan, ctx, model, est, before, path, X, o, detail)
    call(box[0])
    S.check(model, box[0], path[-1][0], "not-exactly-once", "%s %s after %s" % (
        plan["model"]["name"], o["op"], [a["kind"] for a in o["attempts"]]))


def next_step(plan, model, est, at, detail, upd="inverse iteration"):
    """The step the estimator would take next is that of its sample count."""
    theta, k = at
    x = model.data(np.random.RandomState(17), 1)
    want, _ = advance(model, theta, k, plan["lr"], x, upd)
    if not S.finite(model, want):
        return
    twin = copy.deepcopy(est)
    twin.update(x, upd)
    S.check(model, twin, want, "wrong-next-step", detail)


def whole(plan, ctx, model, est, before, path, X, o, detail):
    """A fit that failed stopped between two samples."""
    now = snapshot(est)
    if same(now, before) is None:
        if path[0][0] is not None:
            try:
                next_step(plan, model, est, path[0], detail)
                return
            except Violation:
                pass
        else:
            return
    at = [i for i in range(1, len(path)) if now["estimate_"] is not None
          and not isinstance(now["estimate_"], str)
          and zoo.close(list(model.parts(now["estimate_"])), list(model.parts(path[i][0])),
                        1e-8)]
    if not at:
        raise Violation("partly-updated", "%s: estimate of no sample" % detail)
    i = at[-1]
    S.check(model, est, path[i][0], "partly-updated", detail)
    next_step(plan, model, est, path[i], detail)
    # the rest of the stream completes it
    twin = copy.deepcopy(est)
    for x in X[i - 1:]:
        twin.update(x[None], o["upd"])
    S.check(model, twin, path[-1][0], "not-exactly-once", detail + ", continued")
