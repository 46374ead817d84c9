"""C10 checkpoint, crash and restart resume exactly where the checkpoint was."""
import io
import os
import pickle
import shutil
import tempfile

import joblib
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E
from . import _online as O
from . import _stream as S

RUNS = {"quick": 1400, "thorough": 24000}
RULE = ("one per (kind of object, operations, checkpoint format and places, crash "
        "places, torn or whole last checkpoint) of runs with a crash")
REAL = E.REAL + ("pickle and joblib persistence", "process death (a forked process per "
                 "life of the program)")
STUB = ("the application writing checkpoints", "torn checkpoint files (truncated)",
        "clock (virtual)")
ASSUMES = ("A checkpoint is written to a new file; a torn one is a prefix of it.",
           "Callables given by the user (gradient, conversion) can be pickled.")
SHRINK_LISTS = ("ops", "crashes")
SHRINK_INTS = {"n": 12, "m": 1}

FORMATS = ("pickle2", "pickle4", "pickle5", "pickle5", "joblib", "joblibz", "joblib_mmap")


def gen(rng, tier):
    kind = rng.choice(["est"] * 5 + ["online"] * 4 + ["features"] * 2 + ["batch"] * 2)
    plan = {"kind": kind, "ops": [], "crashes": [],
            "format": rng.choice(FORMATS)}
    n = rng.choice([2, 3, 4, 6])
    if kind == "est":
        spec = E.draw_spec(rng, slow=rng.random() < .35)
        ab = (spec["params"]["a"], spec["params"]["b"]) if spec.get("p") else None
        plan["spec"] = spec
        p = rng.choice([2, 3, 5])
        for _ in range(n if not E.slow(spec) else 2):
            k = rng.choice(["fit", "fit", "resume", "setp", "query", "badfit"])
            o = {"op": k, "s": rng.randrange(10 ** 6)}
            if k in ("fit", "badfit", "resume"):
                o["fit"] = E.draw_fit(rng, spec, p=p)
                o["kind"] = rng.choice(E.BAD)
            if k == "setp":
                o["spec"] = E.draw_spec(rng, (spec["cls"],), ab=ab)
            if k == "query":
                o["q"] = rng.choice(E.QUERIES)
            plan["ops"].append(o)
        plan["ops"].append({"op": "fit", "fit": E.draw_fit(rng, spec, p=p), "s": 1})
    elif kind == "online":
        plan.update(pair=rng.choice([0, 0, 0, 1, 2, 3, 3, 3]), model=draw_model(rng),
                    p=rng.choice([2, 3]),
                    lr=rng.choice([.05, .2]), start=rng.randrange(10 ** 6))
        for _ in range(rng.choice([3, 6, 10, 16])):
            plan["ops"].append({"op": "update", "s": rng.randrange(10 ** 6),
                                "upd": rng.choice(["inverse iteration"] * 3 + ["constant"])})
        if rng.random() < .3:
            plan["ops"].insert(rng.randrange(len(plan["ops"])),
                               {"op": "fit", "s": rng.randrange(10 ** 6),
                                "m": rng.choice([1, 4, 4, 130, 280]),
                                "upd": "inverse iteration"})
    elif kind == "features":
        plan["near"] = rng.random() < .4
        plan["big"] = rng.random() < .1
        for _ in range(n):
            plan["ops"].append({"op": "append", "m": rng.choice(
                [1, 1, 2, 5]) * (400 if plan["big"] else 1), "s": rng.randrange(10 ** 6)})
    else:
        cls = rng.choice(zoo.FP + zoo.EMP + ("CovScale", "Steps"))
        P = zoo.draw_params(rng, cls) if cls in zoo.FP + zoo.EMP else {}
        if "iter_max" in P:
            P["iter_max"] = min(P["iter_max"], 6 if rng.random() < .85 else 60)
        plan.update(spec={"cls": cls, "params": P}, data=zoo.draw_data(rng, cls, n=16),
                    feat=cls == "CovScale" or rng.random() < .5)
        plan["n_jobs"] = rng.choice([1, 2, None, -1])
        for _ in range(n):
            plan["ops"].append({"op": "transform", "m": rng.randint(1, 3),
                                "s": rng.randrange(10 ** 6)})
            if rng.random() < .35:
                plan["ops"].append({"op": "setp", "s": rng.randrange(10 ** 6), "n":
                                    rng.choice([1, 3, None]), "params":
                                    c01_redraw(rng, P, cls)})
    for i, o in enumerate(plan["ops"]):
        o["save"] = rng.random() < .6
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan["crashes"].append({"at": rng.randrange(len(plan["ops"])),
                                "torn": rng.random() if rng.random() < .4 else None})
    return plan


def c01_redraw(rng, P, cls):
    from .c01 import redraw
    return redraw(rng, P, cls) if cls in zoo.FP + zoo.EMP else {}


def draw_model(rng):
    while True:
        m = dict(S.draw_model(rng), answers=None)
        if "Package" in m["name"]:
            return m


# ---------------------------------------------------------------------------
class Machine:
    """The application: one object, operations on it, what it shows."""

    def __init__(self, plan):
        self.plan = plan
        k = plan["kind"]
        if k == "est":
            self.obj = zoo.build(plan["spec"])
        elif k == "online":
            from robuststats.online.estimation import \
                StochasticGradientCovarianceEstimator as SG
            rs = np.random.RandomState(plan["start"])
            c = zoo.spd(rs, plan["p"], True)
            if plan["pair"] == 3:       # on a manifold of the package
                self.model = S.build(plan["model"])
                self.obj = self.model.est(plan["lr"])
                self.obj.set_estimate(self.model.init(rs))
            elif plan["pair"]:
                t = tuple if plan["pair"] == 2 else list
                self.obj = SG(O.Flat(), O.rgrad_tuple if plan["pair"] == 2 else O.rgrad_pair,
                             plan["lr"], O.total)
                self.obj.set_estimate(t([c, c.conj() + .1 * np.eye(plan["p"])]))
            else:
                self.obj = SG(O.HPD(), O.rgrad_gauss, plan["lr"])
                self.obj.set_estimate(c)
        elif k == "features":
            from robuststats.estimation.base import _FeatureArray
            self.obj = _FeatureArray((2, 2), (3,))
        else:
            from robuststats.estimation.base import CovariancesEstimation, FeaturesEstimation
            self.obj = (FeaturesEstimation if plan["feat"] else CovariancesEstimation)(
                zoo.build(plan["spec"]), n_jobs=plan["n_jobs"])

    def spec(self):
        P = dict(self.plan["spec"]["params"])
        P.update({k: v for k, v in self.obj.get_params(deep=False).items() if k in P
                  or k == "method"})
        return dict(self.plan["spec"], params=P)

    def apply(self, o):
        """What the program sees after the operation."""
        k, e = o["op"], self.obj
        rs = np.random.RandomState(o["s"])
        if self.plan["kind"] == "est":
            spec = self.spec()
            if k in ("fit", "resume"):
                fit = usable(spec, o["fit"])
                kw = E.fit_kw(spec, fit)
                c = getattr(e, "covariance_", None)
                if k == "resume" and "init" in kw and spec["cls"] in zoo.FP and \
                        c is not None and len(c) == fit["data"]["p"]:
                    kw = {"init": c}
                e.fit(zoo.make_data(fit["data"]), **kw)
            elif k == "badfit":
                X, kw = E.bad_call(o["s"], spec, usable(spec, o["fit"]), o["kind"])
                try:
                    e.fit(X, **kw)
                    return {"raised": "nothing"}
                except Exception as x:
                    return {"raised": type(x).__name__}
            elif k == "setp":
                e.set_params(**o["spec"]["params"])
            elif k == "query" and hasattr(e, "covariance_") and \
                    e.n_features_in_ // (2 if zoo.is_complex(spec["cls"]) else 1) \
                    == len(e.covariance_):
                p = len(e.covariance_)
                X = rs.randn(5, p)
                if zoo.is_complex(spec["cls"]):
                    X = X + 1j * rs.randn(5, p)
                r = E.query(e, spec, o["q"], X)
                return {"answer": 0 if r is None else r}
            d = zoo.learned(e)
            d.update({"param:" + n: v for n, v in sorted(zoo.params(e).items())})
            return plain(d)
        if self.plan["kind"] == "online":
            p = self.plan["p"]
            m = self.model if self.plan["pair"] == 3 else None
            if m is not None:
                X = m.data(rs, o.get("m", 1))
                if k == "fit":
                    e.fit(X, init=m.init(rs), lr_update=o["upd"])
                else:
                    e.update(X, o["upd"])
            elif k == "fit":
                X = rs.randn(o["m"], p) + 1j * rs.randn(o["m"], p)
                c = zoo.spd(rs, p, True)
                e.fit(X, init=[c, [c, c], (c, c)][int(self.plan["pair"])], lr_update=o["upd"])
            else:
                X = rs.randn(1, p) + 1j * rs.randn(1, p)
                e.update(X, o["upd"])
            est = e.estimate_
            return plain({"kind": type(est).__name__, "c": e.covariance_, "p": e.get_precision(),
                          "e": [np.array(x) for x in est] if isinstance(est, (list, tuple))
                          else np.array(est)})
        if self.plan["kind"] == "features":
            a = rs.randn(o["m"], 2, 2)
            if self.plan["near"]:           # symmetric up to rounding
                a = a + np.transpose(a, (0, 2, 1)) + 1e-8 * rs.randn(*a.shape)
            e.append([a, rs.randn(o["m"], 3)])
            return {"n": len(e), "v": np.array(e.vectorize()),
                    "l": [np.array(a) for a in e[len(e) - 1].export()]}
        if k == "setp":
            e.set_params(n_jobs=o["n"], **{"estimator__" + n: v
                                           for n, v in o["params"].items()})
        jobs = e.n_jobs
        if k == "transform":
            d = dict(self.plan["data"], seed=o["s"])
            e.set_params(n_jobs=1)          # this process has no workers
            r = e.transform(zoo.make_stack(d, o["m"]))
            e.set_params(n_jobs=jobs)
            r = {"v": np.array(r.vectorize() if self.plan["feat"] else r)}
        else:
            r = {}
        r.update({"param:" + n: v for n, v in sorted(zoo.params(e.estimator).items())},
                 n_jobs=jobs)
        return plain(r)


def usable(spec, fit):
    from .c06 import usable as u
    return u(spec, fit)


def plain(d):
    """Only built-in objects and arrays."""
    return {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in d.items()}


class Disk:
    """Checkpoint files of the run, oldest first, in a scratch directory."""

    def __init__(self, path, fmt, grows):
        self.path, self.fmt = path, fmt
        # an object that grows in place needs writable pages
        self.mmap = None if fmt != "joblib_mmap" else "c" if grows else "r"

    def save(self, k, obj):
        f = os.path.join(self.path, "ck%05d" % k)
        if os.path.exists(f + ".torn"):
            os.unlink(f + ".torn")
        if self.fmt.startswith("pickle"):
            with open(f, "wb") as h:
                pickle.dump((k, obj), h, protocol=int(self.fmt[-1]))
        else:
            joblib.dump((k, obj), f, compress=3 if self.fmt == "joblibz" else 0)
        return f

    def load(self):
        for f in sorted((f for f in os.listdir(self.path) if "." not in f),
                        reverse=True):
            f = os.path.join(self.path, f)
            try:
                if self.fmt.startswith("pickle"):
                    with open(f, "rb") as h:
                        return pickle.load(h)
                return joblib.load(f, mmap_mode=self.mmap)
            except AttributeError:
                raise                   # the code no longer knows its own objects
            except Exception:
                if not os.path.exists(f + ".torn"):
                    raise               # a whole checkpoint must load
                os.unlink(f)
        return None

    def tear(self, f, frac):
        n = os.path.getsize(f)
        with open(f, "r+b") as h:
            h.truncate(int(n * frac))
        open(f + ".torn", "w").close()


def life(plan, disk, crash):
    """One life of the program; what it saw, and where it ended."""
    m = Machine(plan)
    start, seen = 0, {}
    ck = disk.load()
    if ck is not None:
        start, m.obj = ck
    for i in range(start, len(plan["ops"])):
        if crash is not None and i > crash["at"]:
            break
        o = plan["ops"][i]
        seen[i] = m.apply(o)
        last = crash is not None and i == crash["at"]
        if o["save"] or last and crash["torn"] is not None:
            f = disk.save(i + 1, m.obj)
            if last and crash["torn"] is not None:
                disk.tear(f, crash["torn"])
        if last:
            break
    return start, seen


def peer(fn):
    try:
        return E.pristine(fn)
    except E.PeerFailure as e:
        raise Violation("unexpected:" + e.name, str(e))


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-6):
        run(plan, ctx)


def run(plan, ctx):
    scratch = tempfile.mkdtemp(prefix="vsim-c10-")
    try:
        def uninterrupted():
            m = Machine(plan)
            return [m.apply(o) for o in plan["ops"]]
        want = peer(uninterrupted)
        disk = Disk(scratch, plan["format"], plan["kind"] == "features")
        lives = []
        for crash in list(plan["crashes"]) + [None]:
            start, seen = peer(lambda: life(plan, disk, crash))
            if crash is not None:
                ctx.fault("crash")
                if crash["torn"] is not None and crash["at"] in seen:
                    ctx.fault("torn_checkpoint")
            if start:
                ctx.probe("resumed_from_checkpoint")
            for i in sorted(seen):
                k = zoo.same(seen[i], want[i], 1e-11 if plan["kind"] == "online" else 1e-9)
                if k is not None:
                    raise Violation("resumed-differently", "life %d started at %d, "
                                    "operation %d (%s): %s is %s, without crash %s" % (
                                        len(lives), start, i, plan["ops"][i]["op"], k,
                                        E.short(seen[i].get(k)), E.short(want[i].get(k))))
            lives.append((start, max(seen, default=-1)))
            ctx.event("life", start, sorted(seen))
        if plan["ops"] and lives[-1][1] != len(plan["ops"]) - 1 \
                and lives[-1][0] < len(plan["ops"]):
            raise Violation("not-finished", repr(lives))
        ctx.sig(plan["kind"], plan.get("spec", {}).get("cls"), plan["format"], lives,
                [o["op"] for o in plan["ops"]])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
