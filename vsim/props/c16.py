"""C16 online estimation processes a stream exactly, however it is cut."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E
from . import _stream as S

RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one per (model, kinds and order of the operations on each estimator, channel "
        "faults, interleaving of the estimators) of runs with at least two cuts or a fault")
REAL = E.REAL
STUB = ("the source and channel of the samples (loses, repeats, delays and reorders them)",
        "the scheduler of the consumers", "clock (virtual)")
ASSUMES = ("The user's gradient, manifold and conversion are functions of their arguments.",)
SHRINK_LISTS = ("ops", "streams")
SHRINK_INTS = {"n": 1}


def gen(rng, tier):
    streams = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = S.draw_model(rng)
        lrs = S.MODELS[m["name"]].lrs
        ops = [{"op": "fit", "n": rng.choice([0, 1, 2, 5, 10])}
               if rng.random() < .6 else {"op": "set", "s": rng.randrange(10 ** 6)}]
        if rng.random() < .1:
            ops.insert(0, {"op": "early", "n": 1})
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            k = rng.choice(["update"] * 5 + ["block", "fit", "set", "lr", "pickle",
                                             "read", "copy", "badfit"])
            o = {"op": k, "n": rng.choice([1, 1, 2, 3, 8]), "s": rng.randrange(10 ** 6)}
            if k == "lr":
                o["lr"] = rng.choice(lrs)
            ops.append(o)
        if rng.random() < .07:
            # a long stream, in one go or sample by sample
            ops = ops[:3]
            ops.append({
                "op": rng.choice(["fit", "update"]), "n": rng.choice([60, 110, 150, 260, 260, 1100]),
                "s": rng.randrange(10 ** 6)})
            ops.append({"op": "update", "n": 2})
        for o in ops:
            o["upd"] = rng.choice(["inverse iteration", "inverse iteration", "constant"])
        forms = ["C", "F", "strided", "neg", "readonly", "real", "integer"]
        if "SHPD" in m["name"]:
            forms = forms[:5]       # whose data must be of full rank
        streams.append({"form": rng.choice(["C"] * 4 + forms), "model": m, "ops": ops, "lr": rng.choice(lrs),
                        "verb": rng.random() < .2, "cost": rng.random() < .3,
                        "loss": rng.choice([0, 0, .1, .3]), "dup": rng.choice([0, 0, .2]),
                        "late": rng.choice([0, 0, .3]), "zero": rng.choice([0, 0, 0, .2]), "seed": rng.randrange(10 ** 6)})
    return {"streams": streams}


class Channel:
    """Delivers the samples of a source, not all and not in order."""

    def __init__(self, model, s, ctx):
        self.rs = np.random.RandomState(s["seed"])
        self.model, self.s, self.ctx = model, s, ctx
        self.held = []

    def sample(self):
        while True:
            x = self.model.data(self.rs, 1)
            if self.s["zero"] and "SHPD" not in self.s["model"]["name"] and \
                    self.rs.rand() < self.s["zero"]:
                self.ctx.fault("sample_blank")
                x = x * 0
            u = self.rs.rand(3)
            if u[0] < self.s["loss"]:
                self.ctx.fault("sample_lost")
                continue
            if u[1] < self.s["dup"]:
                self.ctx.fault("sample_duplicated")
                self.held.append(x)
            elif u[2] < self.s["late"]:
                self.ctx.fault("sample_late")
                self.held.append(x)
                if len(self.held) > 1:
                    return self.held.pop(0)
                continue
            return x

    def take(self, n):
        X = np.concatenate([self.sample() for _ in range(n)]) if n else \
            np.zeros((0, self.model.p), dtype=complex)
        return self.form(X)

    def form(self, X):
        """The samples as this source stores them."""
        f = self.s["form"]
        if f == "real":
            return np.ascontiguousarray(X.real + X.imag)
        if f == "integer" and len(X):
            return np.round(np.clip(3 * (X.real + X.imag), -9, 9)).astype(int)
        X = zoo.layout(X, f if f in ("F", "strided", "neg") else "C")
        X.flags.writeable = f != "readonly"
        return X


class Diverged(Exception):
    """The stream leads to a matrix too close to a singular one to compare."""


class Consumer:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.model = S.build(s["model"])
        self.channel = Channel(self.model, s, ctx)
        self.lr = s["lr"]
        self.est = self.model.est(self.lr, s["cost"], s["verb"])
        self.theta, self.k = None, 0
        self.todo = list(s["ops"])
        self.done = []

    def step(self, x, upd):
        t = self.lr / (self.k + 1) if upd == "inverse iteration" else self.lr
        self.theta = self.model.step(self.theta, x, t)
        self.k += 1
        if not S.finite(self.model, self.theta):
            raise Diverged()

    def run(self, o):
        m, est, k = self.model, self.est, o["op"]
        detail = "%s after %s" % (self.s["model"]["name"],
                                  " ".join(self.done[-6:] + [k]))
        self.done.append("%s(%s)" % (k, o.get("n", "")) if k in ("fit", "update") else k)
        if k == "early":
            r = est.update(m.data(np.random.RandomState(1), 1), o["upd"])
            if r is not est or est.estimate_ is not None:
                raise Violation("update-before-start", detail)
            return
        if k == "set":
            self.theta = m.init(np.random.RandomState(o["s"]))
            est.set_estimate(copy.deepcopy(self.theta))
        elif k == "fit":
            th = m.init(np.random.RandomState(o.get("s", 7)))
            X = self.channel.take(o["n"])
            est.fit(X, init=copy.deepcopy(th), lr_update=o["upd"])
            self.theta, self.k = th, 0
            for x in X:
                self.step(x[None], o["upd"])
        elif self.theta is None:
            raise InvalidPlan("not started")
        elif k == "update":
            for _ in range(o["n"]):
                x = self.channel.take(1)
                if est.update(x, o["upd"]) is not est:
                    raise Violation("update-result", detail)
                self.step(x, o["upd"])
                S.check(m, est, self.theta, "not-the-stream", detail)
        elif k == "block":
            X = self.channel.take(o["n"])
            est.update(X, o["upd"])
            self.step(X, o["upd"])
        elif k == "lr":
            self.lr = o["lr"]
            if o["s"] % 3:
                est.set_params(lrate=self.lr)
            else:
                est.lrate = self.lr
        elif k == "pickle":
            self.est = est = pickle.loads(pickle.dumps(est))
        elif k == "copy":
            twin = copy.deepcopy(est)
            twin.update(self.channel.take(1) * 3, o["upd"])
        elif k == "read":
            # what a caller does to the answers stays with the caller
            np.array(est.covariance_)
            est.transform(None)
            if est.store_precision:
                est.get_precision().copy()
        elif k == "badfit":
            # refused before anything is done
            try:
                est.fit(self.channel.take(2), init=None, lr_update=o["upd"])
            except Exception:
                pass
            else:
                if est.estimate_ is None:
                    raise Violation("lost-estimate", detail)
            self.ctx.fault("fit_without_start")
        S.check(m, est, self.theta, "not-the-stream", detail)


def execute(plan, ctx):
    if not plan["streams"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-5):
        users = [Consumer(s, ctx) for s in plan["streams"]]
        order = []
        while True:
            live = [i for i, u in enumerate(users) if u.todo]
            if not live:
                break
            i = live[ctx.choose(len(live), "consumer")]
            if order and order[-1] != i:
                ctx.switches += 1
            order.append(i)
            u = users[i]
            o = u.todo.pop(0)
            try:
                u.run(o)
            except Diverged:
                ctx.probe("stream_diverged")
                u.todo, u.theta = [], None
            ctx.event(i, o["op"], u.k)
        for u in users:
            if u.theta is not None:
                S.check(u.model, u.est, u.theta, "not-the-stream",
                        u.s["model"]["name"] + " at the end")
    if sum(len(s["ops"]) for s in plan["streams"]) > 1:
        ctx.nontrivial = True
    ctx.sig(tuple((s["model"]["name"], tuple((o["op"], o["upd"][0]) for o in s["ops"]))
                  for s in plan["streams"]), tuple(order))
