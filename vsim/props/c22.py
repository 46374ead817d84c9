"""C22 the program's settings are neither changed nor in the way."""
import contextlib
import copy
import gc
import io
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
import tqdm

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _online as O
from .c06 import usable

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("one per (operations, settings of the program around each, which fault or "
        "setting ended it at which call) of runs with settings other than the default "
        "ones or a fault")
REAL = E.REAL + ("numpy's error handling, warnings, logging, tqdm",)
STUB = ("the program around the package, with its settings",
        "memory failures and interrupts (injected exceptions at calls)",
        "clock (virtual)", "process without history and settings (forked)")
ASSUMES = ("A setting that turns a condition into an error does so by raising it.",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 12}

FP = ("default", "default", "raise", "raise", "ignore", "call", "callraise", "print",
      "mixed", "log")
WARN = ("default", "default", "error", "error", "always", "ignore", "once", "list")
PRINT = ("default", "default", "short", "suppress", "formatter")
LOGS = ("none", "none", "handler", "level", "disabled", "raising")
SK = ("default", "default", "finite", "changed", "memory")
MISC = ("none", "none", "nogc", "cwd", "gone", "seed", "recursion", "signals", "hooks",
        "jobs", "bufsize", "environ", "locale", "tqdm")


RAISES = {c.__name__: c for c in (ZeroDivisionError, FloatingPointError, RuntimeWarning,
                                  OverflowError, UserWarning, LookupError)}


def gen(rng, tier, what=None):
    what = what or rng.choice(["fit"] * 6 + ["online"] * 3 + ["batch"] * 3 + ["rest"] * 3)
    spec = None
    if what == "fit":
        spec = E.draw_spec(rng, slow=rng.random() < .4)
        if "iter_max" in spec["params"]:
            spec["params"]["iter_max"] = min(spec["params"]["iter_max"], 12 if rng.random() < .85 else 60)
        if "verbosity" not in spec["params"] and rng.random() < .3 and \
                spec["cls"] not in zoo.EMP:
            spec["params"]["verbosity"] = True
    elif what == "batch":
        cls = rng.choice(zoo.FP + zoo.EMP + ("Steps", "ComplexSteps", "CovScale"))
        P = zoo.draw_params(rng, cls) if cls in zoo.FP + zoo.EMP else {}
        if "iter_max" in P:
            P["iter_max"] = min(P["iter_max"], 5)
        spec = {"cls": cls, "params": P}
    p = rng.choice([2, 3])
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        o = {"fp": rng.choice(FP), "warn": rng.choice(WARN), "print": rng.choice(PRINT),
             "logs": rng.choice(LOGS), "sk": rng.choice(SK), "misc": rng.choice(MISC),
             "s": rng.randrange(10 ** 6), "fault": None}
        if rng.random() < .35:
            o["fault"] = {"kind": rng.choice(["memory", "memory", "interrupt", "linalg"]),
                          "where": rng.choice([rng.random(), 1 - rng.random() * .1])}
        if what == "fit":
            o["op"] = rng.choice(["fit"] * 5 + ["badfit", "query", "query"])
            o["fit"] = E.draw_fit(rng, spec, p=p, odd=.5)
            if spec["cls"] in zoo.EMP and rng.random() < .4:
                o["fit"]["data"]["n"] = rng.choice([1, 1, 2])
            if rng.random() < .12 and not E.slow(spec):
                o["fit"]["data"]["odd"] = rng.choice(zoo.DEFICIENT)
            o["kind"], o["q"] = rng.choice(E.BAD), rng.choice(E.QUERIES)
        elif what == "online":
            o.update(op=rng.choice(["fit", "fit", "update", "set"]), n=rng.choice([1, 3, 8]),
                     upd=rng.choice(["inverse iteration", "constant"]), pair=rng.random() < .4,
                     verb=rng.random() < .4, fails=rng.choice([None, None, None, 0, 2]),
                     raises=rng.choice(sorted(RAISES)))
        elif what == "batch":
            o.update(op="batch", trials=rng.choice([1, 2, 4]), feat=rng.random() < .5,
                     data=zoo.draw_data(rng, spec["cls"], n=16),
                     bad=rng.random() < .2)
        else:
            o.update(op=rng.choice(["density", "density", "rvs", "sample", "features",
                                    "manifold", "manifolds", "linalg", "vec", "maps", "cost",
                                    "seeded", "checks", "normalise", "direct", "direct",
                                    "empirical", "printed"]),
                     p=rng.choice([2, 3]), hard=rng.random() < .4)
        ops.append(o)
    return {"what": what, "spec": spec, "p": p, "ops": ops}


# ---------------------------------------------------------------------------
# the program's settings
# ---------------------------------------------------------------------------
class Refused(Exception):
    """Raised by the error callback of the program."""


class Seen(list):
    def __call__(self, kind, flag):
        self.append(kind)

    def write(self, msg):
        self.append(msg)


class Strict:
    def __call__(self, kind, flag):
        raise Refused(kind)


class H(logging.Handler):
    def emit(self, record):
        record.getMessage()


class HRaise(logging.Handler):
    def emit(self, record):
        raise Refused(record.getMessage())


def fp_state():
    return np.geterr(), np.geterrcall()


@contextlib.contextmanager
def settings(o, ctx, scratch):
    """The surroundings of one operation; all put back afterwards."""
    import joblib
    import sklearn
    with contextlib.ExitStack() as st:
        st.enter_context(warnings.catch_warnings())
        old_fp, old_call, old_buf = np.geterr(), np.geterrcall(), np.getbufsize()

        def restore_fp():
            np.seterrcall(old_call)
            np.seterr(**old_fp)
            np.setbufsize(old_buf)
        st.callback(restore_fp)
        old_print = np.get_printoptions()
        st.callback(lambda: np.set_printoptions(**old_print))
        fp = o["fp"]
        if fp in ("raise", "ignore", "print"):
            np.seterr(all=fp)
        elif fp == "mixed":
            np.seterr(over="raise", under="ignore", divide="warn", invalid="raise")
        elif fp in ("call", "callraise", "log"):
            np.seterrcall(Strict() if fp == "callraise" else Seen())
            np.seterr(all="log" if fp == "log" else "call")
        w = o["warn"]
        if w == "list":
            warnings.resetwarnings()
            warnings.filterwarnings("ignore", message="nothing like it")
            warnings.simplefilter("ignore", RuntimeWarning)
            warnings.filterwarnings("error", category=UserWarning)
        elif w != "default":
            warnings.simplefilter(w)
        if w in ("always", "once", "list"):
            warnings.showwarning = lambda *a, **k: None
        if o["print"] == "short":
            np.set_printoptions(precision=1, threshold=3, edgeitems=1, linewidth=20)
        elif o["print"] == "suppress":
            np.set_printoptions(suppress=True, floatmode="fixed", sign="+")
        elif o["print"] == "formatter":
            np.set_printoptions(formatter={"float": lambda x: "number"})
        if o["sk"] != "default":
            st.enter_context(sklearn.config_context(**{
                "finite": {"assume_finite": True}, "changed": {"print_changed_only": False},
                "memory": {"working_memory": 1}}[o["sk"]]))
        st.enter_context(logs(o["logs"]))
        st.enter_context(contextlib.redirect_stderr(io.StringIO()))
        st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        m = o["misc"]
        if m == "nogc":
            st.callback(gc.enable if gc.isenabled() else gc.disable)
            gc.disable()
        elif m in ("cwd", "gone"):
            here = os.getcwd()
            st.callback(lambda: os.chdir(here))
            d = os.path.join(scratch, "cwd%d" % o["s"])
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if m == "gone":
                os.rmdir(d)
        elif m == "seed":
            random.seed(o["s"])
        elif m == "recursion":
            n = sys.getrecursionlimit()
            st.callback(lambda: sys.setrecursionlimit(n))
            sys.setrecursionlimit(n + 77)
        elif m == "signals":
            for s in (signal.SIGUSR1, signal.SIGTERM, signal.SIGINT):
                st.callback(signal.signal, s, signal.signal(s, lambda *a: None))
        elif m == "hooks":
            a, b = sys.excepthook, threading.excepthook
            st.callback(lambda: (setattr(sys, "excepthook", a),
                                 setattr(threading, "excepthook", b)))
            sys.excepthook = threading.excepthook = lambda *a: None
        elif m == "jobs":
            st.enter_context(joblib.parallel_backend("sequential"))
        elif m == "bufsize":
            np.setbufsize(8192 * 4)
        elif m == "environ":
            old = os.environ.get("OMP_NUM_THREADS")
            st.callback(lambda: os.environ.pop("OMP_NUM_THREADS", None) if old is None
                        else os.environ.__setitem__("OMP_NUM_THREADS", old))
            os.environ["OMP_NUM_THREADS"] = "3"
        elif m == "locale":
            import locale
            old = locale.setlocale(locale.LC_ALL)
            st.callback(lambda: locale.setlocale(locale.LC_ALL, old))
            with contextlib.suppress(locale.Error):
                locale.setlocale(locale.LC_ALL, "C.UTF-8")
        elif m == "tqdm":
            old = tqdm.tqdm.monitor_interval
            st.callback(lambda: setattr(tqdm.tqdm, "monitor_interval", old))
            tqdm.tqdm.monitor_interval = 0
        yield


@contextlib.contextmanager
def logs(how):
    root = logging.getLogger()
    own = logging.getLogger("robuststats")
    saved = (root.handlers[:], root.level, root.filters[:], logging.root.manager.disable,
             logging.raiseExceptions, own.handlers[:], own.level, own.propagate)
    try:
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        logging.disable(0)
        logging.raiseExceptions = False
        if how == "handler":
            root.addHandler(H())
        elif how == "raising":
            root.addHandler(HRaise())
        elif how == "level":
            root.setLevel(5)
            root.addHandler(H())
        elif how == "disabled":
            logging.disable(logging.CRITICAL)
            own.setLevel(logging.ERROR)
        yield
    finally:
        (root.handlers[:], level, root.filters[:], dis, logging.raiseExceptions,
         own.handlers[:], olevel, own.propagate) = saved
        root.setLevel(level)
        own.setLevel(olevel)
        logging.disable(dis)


# ---------------------------------------------------------------------------
# what can be seen of the process
# ---------------------------------------------------------------------------
NAMES = ("numpy", "numpy.linalg", "scipy.linalg", "scipy.stats", "autograd.numpy",
         "autograd.numpy.linalg", "pymanopt", "pymanopt.solvers", "joblib", "copy",
         "logging", "tqdm", "math", "sklearn.covariance", "sklearn.base", "builtins",
         "autograd")
CLASSES = (("pymanopt.solvers", "SteepestDescent"), ("pymanopt.solvers", "ConjugateGradient"),
           ("pymanopt.solvers.solver", "Solver"), ("pymanopt", "Problem"),
           ("tqdm", "tqdm"), ("sklearn.covariance", "EmpiricalCovariance"),
           ("sklearn.base", "BaseEstimator"), ("logging", "Logger"), ("logging", "Handler"),
           ("scipy.stats._multivariate", "multivariate_t_gen"),
           ("scipy.stats._multivariate", "multivariate_normal_gen"),
           ("scipy.stats._multivariate", "multi_rv_generic"),
           ("pymanopt.manifolds.psd", "SymmetricPositiveDefinite"))
# tqdm keeps its bars and its monitor thread on the class
OWN = {"_instances", "monitor", "_lock", "__doc__", "__abstractmethods__", "_abc_impl",
       "__slotnames__"}


def library():
    import importlib
    d = {}
    for n in NAMES:
        m = importlib.import_module(n)
        d[n] = {k: id(v) for k, v in vars(m).items()
                if callable(v) or isinstance(v, (int, float, str))}
    for n, c in CLASSES:
        k = getattr(importlib.import_module(n), c)
        d[n + "." + c] = {a: id(v) for a, v in vars(k).items() if a not in OWN}
    return d


def world():
    import joblib
    import locale
    import decimal
    import sklearn
    root = logging.getLogger()
    d = {
        "numpy error handling": fp_state() + (np.getbufsize(),),
        "warning filters": [tuple(f) for f in warnings.filters],
        "warning output": (id(warnings.showwarning), id(warnings._showwarnmsg_impl)),
        "print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "log handlers": [id(h) for h in root.handlers],
        "log level": (root.level, root.disabled, logging.root.manager.disable,
                      logging.raiseExceptions, len(root.filters), id(logging.lastResort),
                      logging.getLoggerClass()),
        "log of the package": {
            n: (lg.level, lg.propagate, lg.disabled, len(lg.handlers), len(lg.filters))
            for n, lg in sorted(logging.root.manager.loggerDict.items())
            if isinstance(lg, logging.Logger) and (
                lg.level or not lg.propagate or lg.disabled or lg.handlers or lg.filters)},
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook),
                  id(sys.unraisablehook), sys.gettrace(), sys.getprofile()),
        "interpreter": (sys.getrecursionlimit(), sys.getswitchinterval(), list(sys.path),
                        gc.isenabled(), gc.get_threshold(), sys.dont_write_bytecode),
        "threads": sorted(t.name for t in threading.enumerate()
                          if type(t).__name__ != "TMonitor"),
        "signal handlers": {int(s): id(signal.getsignal(s)) for s in signal.valid_signals()},
        "environment": dict(os.environ),
        "python's random": hash(random.getstate()),
        "scikit-learn settings": dict(sklearn.get_config()),
        "default workers": repr(type(joblib.parallel.get_active_backend()[0])) +
        repr(joblib.parallel.get_active_backend()[1]),
        "progress bars": (tqdm.tqdm.monitor_interval,),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal": repr(decimal.getcontext()),
        "files": files(),
    }
    try:
        d["directory"] = os.getcwd()
    except FileNotFoundError:
        d["directory"] = None
    return d


def files():
    r = []
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            r.append((f, os.readlink("/proc/self/fd/" + f)))
    return sorted(x for x in r if not x[1].startswith("/proc/"))


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                ks = [n for n in sorted(set(a[k]) | set(b[k]))
                      if a[k].get(n) != b[k].get(n)]
                return "%s: %s" % (k, ", ".join(
                    "%s %r -> %r" % (n, a[k].get(n), b[k].get(n)) for n in ks[:4]))
            return "%s: %r -> %r" % (k, a[k], b[k])
    return None


# ---------------------------------------------------------------------------
# operations
# ---------------------------------------------------------------------------
class Program:
    """What the program does with the package. `look` is called wherever the
    package calls the program back."""

    def __init__(self, plan, look):
        self.plan, self.look = plan, look
        self.est = None
        self.model = None
        if plan["what"] == "fit":
            self.est = zoo.build(plan["spec"])

    def state(self):
        if self.est is None:
            return {}
        d = zoo.learned(self.est)
        if self.plan["what"] == "fit":
            d.update({"param:" + n: v for n, v in sorted(zoo.params(self.est).items())})
        return d

    def ready(self, o):
        """The operation, with its inputs made."""
        return getattr(self, "do_" + self.plan["what"])(o)

    def do_fit(self, o):
        spec, e = self.plan["spec"], self.est
        fit = o["fit"] if spec["cls"] in zoo.EMP else usable(spec, o["fit"])
        X, kw = zoo.make_data(fit["data"]), E.fit_kw(spec, fit)
        Y, bkw = E.bad_call(o["s"], spec, fit, o["kind"])[:2]

        def go():
            if o["op"] == "fit":
                e.fit(X, **kw)
            elif o["op"] == "badfit":
                e.fit(Y, **bkw)
            elif hasattr(e, "covariance_") and len(e.covariance_) == X.shape[1]:
                r = E.query(e, spec, o["q"], X)
                return {"r": 0 if r is None else r}
            return self.state()
        return go

    def do_online(self, o):
        from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
        p, prog = self.plan["p"], self
        rs = np.random.RandomState(o["s"])
        self.calls, self.raised = 0, False

        def rgrad(x, th):
            prog.look("gradient")
            prog.calls += 1
            if o["fails"] is not None and prog.calls - 1 == o["fails"]:
                prog.raised = True
                raise RAISES[o["raises"]]("gradient")
            return (O.rgrad_pair if o["pair"] else O.rgrad_gauss)(x, th)

        def total(th):
            prog.look("conversion")
            return O.total(th)

        def cost(X, th):
            prog.look("cost")
            return O.cost_half(X, th)

        class Steps(O.Flat if o["pair"] else O.HPD):
            def retr(self, x, u):
                prog.look("retraction")
                return super().retr(x, u)
        c = zoo.spd(rs, p, True)
        start = [c, c.conj() + .1 * np.eye(p)] if o["pair"] else c
        if self.est is None or isinstance(self.est.estimate_, list) != o["pair"]:
            self.est = S(Steps(), rgrad, .1, total if o["pair"] else None)
        e = self.est
        e.set_params(rgrad=rgrad, manifold=Steps(), cost=cost if o["verb"] else None,
                     verbosity=o["verb"], estimatetocov=total if o["pair"] else None)
        X = rs.randn(o["n"], p) + 1j * rs.randn(o["n"], p)

        def go():
            if o["op"] == "fit":
                e.fit(X, init=start, lr_update=o["upd"])
            else:
                if o["op"] == "set" or e.estimate_ is None:
                    e.set_estimate(start)
                e.update(X[:1], o["upd"])
            return self.state()
        return go

    def do_batch(self, o):
        from robuststats.estimation.base import CovariancesEstimation, FeaturesEstimation
        spec, prog = self.plan["spec"], self
        k = zoo.klass(spec["cls"])

        class Mine(k):
            def fit(self, X, *a, **kw):
                prog.look("estimator")
                return super().fit(X, *a, **kw)
        X = np.array(zoo.make_stack(dict(o["data"], seed=o["s"]), o["trials"]))
        if o["bad"]:
            X[-1, 0, 0] = np.nan
        est = Mine(**spec["params"])
        feat = o["feat"] or spec["cls"] == "CovScale"

        def go():
            r = (FeaturesEstimation if feat else CovariancesEstimation)(est).transform(X)
            return {"r": np.array(r.vectorize() if feat else r)}
        return go

    def do_rest(self, o):
        rs = np.random.RandomState(o["s"])
        p, k = o["p"], o["op"]
        S, C = zoo.spd(rs, p), zoo.spd(rs, p, True)
        Z = rs.randn(6, p) + 1j * rs.randn(6, p)
        if o["hard"]:
            Z[0] = 0
            Z[1] *= 1e160
            S[:, 0] *= 1e-8
            S[0] *= 1e-8
        u = C @ (Z[-p:] + Z[-p:].conj().T) @ C
        return lambda: self.rest(o, rs, p, k, S, C, Z, u)

    def rest(self, o, rs, p, k, S, C, Z, u):
        from robuststats.models import probability as P, mappings as M, manifolds, cost
        from robuststats.utils import linalg as L, generation_data as G, montecarlo, checking
        from robuststats.estimation.base import _FeatureArray
        from robuststats.estimation.covariance import get_normalisation_function
        if k == "density":
            return {"a": P.complex_multivariate_normal.logpdf(Z, None, C),
                    "b": P.complex_multivariate_normal(np.zeros(p), S).logpdf(Z.real),
                    "c": P.complex_multivariate_t(np.zeros(p, dtype=complex), C, 3.).logpdf(Z),
                    "d": P.complex_multivariate_t.logpdf(Z.real, np.zeros(p), S, 3.)}
        if k == "rvs":
            return {"a": P.complex_multivariate_normal.rvs(None, C, size=3, random_state=o["s"]),
                    "b": P.complex_multivariate_t.rvs(np.zeros(p), S, 3., size=3,
                                                      random_state=o["s"])}
        if k == "sample":
            np.random.seed(o["s"])
            t = np.abs(rs.randn(3)) + .1
            return {"a": G.sample_complex_normal_distribution(3, C),
                    "b": G.sample_normal_distribution(3, S),
                    "c": G.sample_compound_distribution(t, S),
                    "d": G.sample_complex_compound_distribution(t, C),
                    "e": G.sample_tau_UUH_distribution(t, G.generate_stiefel(p, 1)),
                    "f": G.sample_complex_tau_UUH_distribution(
                        t, G.generate_complex_stiefel(p, 1)),
                    "g": G.generate_covariance(p, unit_det=True),
                    "h": G.generate_complex_covariance(p, unit_det=True),
                    "i": G.generate_textures_gamma_dist(3),
                    "j": G.generate_textures_lognormal_dist(3), "k": np.random.rand()}
        if k == "features":
            f = _FeatureArray((p, p), (1, p))
            f.append([np.stack([C, C]), Z[:2, None]])
            try:
                f.append([C[:1], Z[:1]])
            except ValueError:
                pass
            return {"v": f.vectorize(), "e": f[1:].export()[0], "s": len(str(f)) > 0}
        if k == "manifold":
            m = manifolds.HermitianPositiveDefinite(p)
            return {"a": m.exp(C, .1 * u), "b": m.log(C, S + np.eye(p) + 0j),
                    "c": m.retr(C, .1 * u), "d": m.dist(C, S + np.eye(p) + 0j)}
        if k == "manifolds":
            np.random.seed(o["s"])
            r = {}
            for n, m in (("hpd", manifolds.HermitianPositiveDefinite(p, 2)),
                         ("shpd", manifolds.SpecialHermitianPositiveDefinite(p)),
                         ("pos", manifolds.StrictlyPositiveVectors(p)),
                         ("kron", manifolds.KroneckerHermitianPositiveElliptical(p, 2, .7))):
                x = m.rand()
                v = m.randvec(x)
                a = m.retr(x, v)
                r.update({n + "x": x, n + "v": v, n + "r": a, n + "n": m.norm(x, v),
                          n + "e": m.exp(x, v), n + "t": m.transp(x, a, v),
                          n + "d": m.dist(x, a), n + "g": m.egrad2rgrad(x, v)})
            return {n: np.concatenate([np.ravel(w) for w in v]) if isinstance(v, (list, tuple))
                    else v for n, v in r.items()}
        if k == "vec":
            return {"a": L.unvec(L.vec(C)), "b": L.unvech(L.vech(S)),
                    "c": L.ToeplitzMatrix(.5, p), "d": L.hermitian(C), "e": L.expm(S * 1e-3)}
        if k == "direct":
            kk = rs.randint(8)
            X = np.concatenate([Z, Z[::-1].conj() + 1])
            if o["hard"]:
                X[2] = X[3]
            from robuststats.estimation import covariance as K, structured as T
            f = ("huber_m_estimator_fixed_point", "student_t_mle_fixed_point",
                 "tyler_shape_matrix_fixedpoint", "complex_huber_m_estimator_fixed_point",
                 "complex_student_t_mle_fixed_point", "complex_tyler_shape_matrix_fixedpoint",
                 "estimation_cov_kronecker_MM", "tyler_shape_matrix_naturalgradient")[kk]
            X = X if f.startswith("complex") or kk == 6 else X.real
            if kk == 6:
                return dict(zip("abcd", T.estimation_cov_kronecker_MM(X, 1, p, iter_max=4)))
            a = () if "tyler" in f else (.7,) if "huber" in f else (3.,)
            kw = {"init": np.eye(p)} if kk == 7 else {"iter_max": 5}
            return dict(zip("abc", getattr(K, f)(X, *a, **kw)))
        if k == "empirical":
            from robuststats.estimation.base import complex_empirical_covariance as cec
            n = rs.randint(1, 5)
            return {"a": cec(Z[:n]), "b": cec(Z[:n], assume_centered=True), "c": cec(Z[0])}
        if k == "printed":
            from robuststats.utils import verbose
            verbose.matprint(np.round(S, 2))
            with verbose.logging_tqdm(total=2) as bar:
                bar.update(1)
            return {"a": 1}
        if k == "linalg":
            return {"a": L.sqrtm(C), "b": L.invsqrtm(S), "c": L.logm(C), "d": L.powm(C, .3)}
        if k == "maps":
            return {"a": M.covariancetocomplex(M.covariancetoreal(C)),
                    "b": M.arraytocomplex(M.arraytoreal(Z)), "c": M.iscovariance(C)}
        if k == "cost":
            return {"a": cost.Tyler_cost_real(Z.real, S), "b": cost.Tyler_cost_complex(Z, C)}
        if k == "normalise":
            return {n: get_normalisation_function(n)(C) for n in zoo.NORMS + ("other",)}
        if k == "checks":
            checking.check_positive(p, "p")
            try:
                checking.check_value(p, "p", [0])
            except ValueError:
                return {"r": 1}
            return {"r": 0}
        with contextlib.suppress(ZeroDivisionError):
            with montecarlo.temp_seed(o["s"]):
                v = np.random.rand(3)
                if o["hard"]:
                    raise ZeroDivisionError
        return {"v": v}


def attempt(go, flt=None, mon=None):
    """(answer, exception) of one operation."""
    if flt is not None:
        mon.set_fault(flt)
    try:
        return go(), None
    except (Exception, KeyboardInterrupt) as e:
        if os.environ.get("VSIM_TB"):
            import traceback
            open("/tmp/tb.txt", "a").write(traceback.format_exc())
        return None, e
    finally:
        if flt is not None:
            mon.set_fault(None)


FIRST = []


def prepare():
    """The first use of the package in the process."""
    with contextlib.redirect_stderr(io.StringIO()), logs("handler"), \
            contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import joblib
        import sklearn
        from sklearn.base import clone
        rs = np.random.RandomState(0)
        from robuststats.estimation.covariance import TylerShapeMatrix
        from robuststats.estimation.structured import KroneckerStudent, KroneckerEllipticalMM
        for v in [v for v in os.environ if v.endswith("_NUM_THREADS")]:
            del os.environ[v]           # (read already)
        before = world(), library()
        TylerShapeMatrix(verbosity=True).fit(rs.randn(9, 2))
        TylerShapeMatrix(method="natural gradient").fit(rs.randn(9, 2), init=np.eye(2))
        KroneckerStudent(2, 1, 3).fit(rs.randn(9, 2) + 1j * rs.randn(9, 2))
        KroneckerEllipticalMM(2, 1).fit(rs.randn(9, 2) + 1j * rs.randn(9, 2))
        for what in ("online", "batch", "rest"):
            rng = random.Random(1)
            for _ in range(60):
                plan = dict(gen(rng, "quick", what), index=0)
                prog = Program(plan, lambda w: None)
                for o in plan["ops"]:
                    attempt(prog.ready(dict(o, bad=False)))
        after = world(), library()
        FIRST[:] = [d for d in (differ(before[0], after[0]), differ(before[1], after[1])) if d]
        joblib.parallel.get_active_backend(), sklearn.get_config(), clone(TylerShapeMatrix())
        with joblib.parallel_backend("sequential"):
            pass


def settings_error(e, o, depth=0):
    """The exception is one that the program's settings asked for."""
    if e is None or depth > 8:
        return False
    if isinstance(e, (FloatingPointError, Warning, Refused)):
        return True
    return settings_error(e.__cause__, o, depth + 1) or \
        settings_error(e.__context__, o, depth + 1)


def execute(plan, ctx):
    if not plan["ops"]:
        raise InvalidPlan("nothing")
    scratch = tempfile.mkdtemp(prefix="vsim-c22-")
    try:
        with Clock(tick=1e-6):
            run(plan, ctx, scratch)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


EXC = {"memory": MemoryError, "linalg": np.linalg.LinAlgError}


def run(plan, ctx, scratch):
    if FIRST:
        raise Violation("settings-changed", "by the first fits: " + FIRST[0])
    outer = world()
    lib = library()
    seen = {}

    def look(where):
        if expected and fp_state() != expected[0]:
            raise Violation("settings-changed-inside", "%s sees %r, the program set %r" % (
                where, fp_state(), expected[0]))
        if expected and {k: str(v) for k, v in np.get_printoptions().items()} != expected[1]:
            raise Violation("settings-changed-inside", "print options in " + where)
    expected = []
    prog = Program(plan, look)
    sigs = []
    for i, o in enumerate(plan["ops"]):
        name = "%s %s of %s, fp=%s warnings=%s" % (
            i, o["op"], plan["spec"]["cls"] if plan["spec"] else plan["what"], o["fp"], o["warn"])
        # without settings and faults, from the same state
        twin = copy.deepcopy(prog)
        calm = E.pristine(lambda: calmly(twin, o))
        flt = None
        if o["fault"]:
            dry = make_fault(o["fault"], None)
            ghost = copy.deepcopy(prog)
            with contextlib.redirect_stderr(io.StringIO()), logs("handler"), \
                    contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ghost.look = lambda w: None
                attempt(ghost.ready(o), dry, ctx.mon)
            flt = make_fault(o["fault"], min(dry.n - 1, int(o["fault"]["where"] * max(1, dry.n))))
        before = prog.state()
        go = prog.ready(o)
        with settings(o, ctx, scratch):
            was = world()
            expected[:] = [fp_state(), was["print options"]]
            got, exc = attempt(go, flt, ctx.mon)
            expected[:] = []
            now = world()
        if isinstance(exc, Violation):
            raise exc
        d = differ(was, now)
        if d is not None:
            raise Violation("settings-changed", "%s (%s): %s" % (
                name, "returned" if exc is None else type(exc).__name__, d))
        fired = flt is not None and flt.fired
        if fired:
            ctx.fault(o["fault"]["kind"])
        for k in ("fp", "warn", "print", "logs", "sk", "misc"):
            if o[k] not in ("default", "none"):
                ctx.fault("settings:%s=%s" % (k, o[k]))
        end = type(exc).__name__
        sigs.append((o["op"], o["fp"], o["warn"], o["misc"], flt.fired if fired else None, end))
        ctx.event(i, o["op"], end)
        if exc is None and o["op"] in ("fit", "update") and getattr(prog, "raised", False):
            raise Violation("settings-hide-error", "%s: the gradient's %s" % (
                name, o["raises"]))
        if exc is None and not fired:
            if calm[1] is not None and o["sk"] != "finite":
                raise Violation("settings-hide-error", "%s: %s without these settings" % (
                    name, calm[1]))
            if calm[1] is None:
                k = zoo.same(got, calm[0], 1e-9)
                if k is not None:
                    raise Violation("settings-change-result", "%s: %s is %s, without these "
                                    "settings %s" % (name, k, E.short(got.get(k)),
                                                     E.short(calm[0].get(k))))
        elif exc is not None:
            allowed = fired or settings_error(exc, o) or calm[1] is not None
            if not allowed:
                raise Violation("settings-in-the-way", "%s: %s: %s" % (
                    name, end, str(exc)[:200])) from exc
            if calm[1] is None and not fired:
                ctx.probe("setting_raised")
            # (scikit-learn's own fit sets its location first)
            if plan["what"] == "fit" and plan["spec"]["cls"] != "RealEmpiricalCovariance":
                k = zoo.exact(prog.state(), before)
                if k is not None:
                    raise Violation("error-changes-state", "%s: %s after %s" % (name, k, end))
        exc = None
    d = differ(lib, library())
    if d is not None:
        raise Violation("libraries-changed", d)
    d = differ(outer, world())
    if d is not None and not d.startswith("python's random"):
        raise Violation("settings-changed", "at the end: " + d)
    if any(s[1:] != ("default", "default", "none", None, "NoneType") for s in sigs):
        ctx.nontrivial = True
    ctx.sig(plan["what"], plan["spec"]["cls"] if plan["spec"] else None, sigs)


def calmly(prog, o):
    prog.look = lambda w: None
    with contextlib.redirect_stderr(io.StringIO()), logs("handler"), \
            contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, e = attempt(prog.ready(o))
        return a, None if e is None else type(e).__name__


def make_fault(f, at):
    if f["kind"] == "interrupt":
        return InterruptAt(at)
    return CallFault(at, EXC[f["kind"]])
