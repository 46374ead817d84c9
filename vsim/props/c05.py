"""C05 data given to the package stays the caller's."""
import os
import shutil
import tempfile

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..mon import CallFault, InterruptAt
from . import _est as E
from . import _online as O

RUNS = {"quick": 4000, "thorough": 50000}
RULE = ("one per (operation, estimator, input kind, fault kind and place, order of "
        "caller writes) of runs with protected or mapped input, a fault or a caller "
        "write")
REAL = E.REAL
STUB = ("read-only pages and files (numpy write protection, memory maps of scratch "
        "files)", "failing calls and interrupts (injected exceptions)")
ASSUMES = ("Caller writes happen between operations, not during one.",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 12, "iter_max": 0, "n_trials": 1}

MODES = ("plain", "plain", "readonly", "memmap", "memmap_rw")
FUNCS = ("maps", "pdf", "tpdf", "rvs", "cost", "linalg", "hpd", "kron", "sample",
         "normal", "mixed") + ("direct",) * 7


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        o = {"mode": rng.choice(MODES), "fault": None}
        if rng.random() < .3:
            o["fault"] = {"kind": rng.choice(["memory", "memory", "interrupt"]),
                          "where": rng.random()}
        if r < .45:
            spec = E.draw_spec(rng, slow=rng.random() < .2)
            if "iter_max" in spec["params"]:
                spec["params"]["iter_max"] = rng.choice([0, 1, 2, 5, 20]) \
                    if spec["cls"] in zoo.FP else 3
            o.update(op="fit", spec=spec, fit=E.draw_fit(rng, spec, dtypes=True),
                     init_kind=rng.choice(["copy", "copy", "learned"]))
            if spec["cls"] == "KroneckerStudent" and rng.random() < .5:
                o.update(fit=E.draw_fit(rng, spec, init=True), init_kind="learned")
        elif r < .56:
            cls = rng.choice(["TylerShapeMatrix", "ComplexTylerShapeMatrix",
                              "RealEmpiricalCovariance", "ComplexEmpiricalCovariance",
                              "ComplexSteps", "Steps"])
            spec = {"cls": cls, "params": {"iter_max": 3} if "Tyler" in cls else {}}
            o.update(op="batch", spec=spec, feat=rng.random() < .5,
                     n_jobs=rng.choice([1, 2]), n_trials=rng.randint(1, 4),
                     data=zoo.draw_data(rng, cls, n=16), init=rng.random() < .4)
        elif r < .69:
            o.update(op="online", how=rng.choice(["fit", "update", "set"]),
                     pair=rng.random() < .4, n=rng.randint(1, 6), p=rng.choice([2, 3]),
                     conv=rng.random() < .5, seed=rng.randrange(10 ** 6))
        elif r < .77:
            o.update(op="features", seed=rng.randrange(10 ** 6),
                     sizes=[rng.choice([1, 1, 2, 3, 40, 130, 1100])
                            for _ in range(rng.randint(1, 4))],
                     single=rng.random() < .4)
        elif r < .81:
            o.update(op="frozen", dist=rng.choice(["normal", "t"]), p=rng.choice([1, 2, 3]),
                     cplx=rng.random() < .4, seed=rng.randrange(10 ** 6),
                     own=rng.random() < .5, mean=rng.random() < .8,
                     used=rng.random() < .5)
        elif r < .83:
            o.update(op="product", p=2, seed=rng.randrange(10 ** 6))
        else:
            o.update(op="func", name=rng.choice(FUNCS), seed=rng.randrange(10 ** 6),
                     p=rng.choice([2, 3]), real=rng.random() < .5)
            if o["name"] == "direct":
                o.update(n=rng.choice([12, 12, 40, 130, 600, 1100]),
                         what=rng.choice(DIRECT), iters=rng.choice([0, 1, 2, 5]),
                         start=rng.random() < .5, centred=rng.random() < .5,
                         layout=rng.choice(["C", "F", "strided", "neg"]))
        ops.append(o)
    return {"ops": ops}

DIRECT = ("huber", "student", "tyler", "natural", "empirical", "empirical", "mm")


class Store:
    """The caller's arrays of one operation, with their original bytes."""

    def __init__(self, mode, scratch):
        self.mode, self.scratch = mode, scratch
        self.arrays = []
        self.k = 0

    def give(self, a):
        a = np.asarray(a)
        if self.mode.startswith("memmap") and a.size:
            self.k += 1
            fn = os.path.join(self.scratch, "m%d" % self.k)
            m = np.memmap(fn, dtype=a.dtype, mode="w+", shape=a.shape)
            m[...] = a
            m.flush()
            del m
            a = np.memmap(fn, dtype=a.dtype, shape=a.shape,
                          mode="r" if self.mode == "memmap" else "r+")
        elif self.mode == "readonly":
            a = a.copy(order="K")
            a.flags.writeable = False
        self.arrays.append((a, base_bytes(a), header(a)))
        return a

    def check(self, when):
        for a, b, s in self.arrays:
            if header(a) != s:
                raise Violation("input-modified", "%s: %s became %s" % (when, s, header(a)))
            if base_bytes(a) != b:
                raise Violation("input-modified", when)

    def aliases(self, x):
        return any(np.shares_memory(x, a) for a, _, _ in self.arrays)

    def scribble(self):
        n = 0
        for i, (a, _, s) in enumerate(self.arrays):
            if a.flags.writeable:
                a[...] = 1 + i
                n += 1
            self.arrays[i] = (a, base_bytes(a), s)
        return n


def header(a):
    """What an array is besides its bytes."""
    return (a.shape, a.strides, str(a.dtype), bool(a.flags.writeable))


def base_bytes(a):
    b = a
    while isinstance(b.base, np.ndarray):
        b = b.base
    return b.tobytes()


def arrays_in(o, depth=0):
    """All arrays reachable in a result."""
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            yield from arrays_in(o[k], depth + 1)
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from arrays_in(x, depth + 1)


def visible(obj):
    """Learned state by reference (not copied)."""
    return {k: vars(obj)[k] for k in zoo.LEARNED if k in vars(obj)}


def reached(spec, X, init):
    """Where a fit from this start ends: a start that needs no step."""
    P = dict(spec["params"])
    if "iter_max" in P:
        P["iter_max"] = 200
    pre = zoo.build({"cls": spec["cls"], "params": P})
    try:
        pre.fit(np.array(X), init=init)
    except np.linalg.LinAlgError:
        return init
    if spec["cls"] in zoo.KRON:
        return pre.A_.copy(), pre.B_.copy()
    return pre.covariance_.copy()


def prepare_op(o, st):
    """(call, state): call() performs the operation on the store's arrays,
    state() yields the arrays the package now holds, None for pure functions."""
    k = o["op"]
    if k == "fit":
        spec, fit = o["spec"], o["fit"]
        X = st.give(zoo.make_data(fit["data"]))
        kw = E.fit_kw(spec, fit)
        if kw:
            i = kw["init"]
            if o["init_kind"] == "learned":
                i = reached(spec, X, i)
            kw["init"] = tuple(st.give(x) for x in i) if isinstance(i, tuple) \
                else st.give(i)
        est = zoo.build(spec)
        return (lambda: est.fit(X, **kw)), (lambda: visible(est))
    if k == "batch":
        from robuststats.estimation.base import CovariancesEstimation, FeaturesEstimation
        X = st.give(zoo.make_stack(o["data"], o["n_trials"]))
        kw = {}
        if o["init"] and not o["feat"] and "Tyler" in o["spec"]["cls"]:
            kw["init"] = st.give(zoo.spd(np.random.RandomState(3), o["data"]["p"],
                                         o["data"]["cplx"]))
        out = {}
        b = (FeaturesEstimation if o["feat"] else CovariancesEstimation)(
            zoo.build(o["spec"]))

        def call():
            r = b.transform(X, **kw)
            out["r"] = r.export() if o["feat"] else r
        return call, (lambda: out)
    if k == "online":
        from robuststats.online.estimation import StochasticGradientCovarianceEstimator as S
        rs = np.random.RandomState(o["seed"])
        X = st.give(rs.randn(o["n"], o["p"]) + 1j * rs.randn(o["n"], o["p"]))
        c = zoo.spd(rs, o["p"], True)
        if o["pair"]:
            init = [st.give(c), st.give(c.conj().copy())]
            est = S(O.Flat(), O.rgrad_pair, .3, O.total if o["conv"] else O.first)
        else:
            init = st.give(c)
            est = S(O.HPD(), O.rgrad_gauss, .1)

        def call():
            if o["how"] == "fit":
                est.fit(X, init=init)
                return
            est.set_estimate(init)
            if o["how"] == "update":
                est.update(X[:1], "constant")
        return call, (lambda: visible(est))
    if k == "features":
        from robuststats.estimation.base import _FeatureArray
        rs = np.random.RandomState(o["seed"])
        fa = _FeatureArray((2, 2)) if o["single"] else _FeatureArray((2, 2), (3,))
        batches = []
        for m in o["sizes"]:
            a = st.give(rs.randn(m, 2, 2))
            batches.append([a] if o["single"] else [a, st.give(rs.randn(m, 3))])

        def call():
            for b in batches:
                fa.append(b)

        def state():
            if not len(fa):
                return {}
            return {"e": fa.export(), "v": fa.vectorize()}
        return call, state
    if k == "frozen":
        return frozen(o, st)
    if k == "product":
        from robuststats.models import manifolds as M
        rs = np.random.RandomState(o["seed"])
        w = st.give(1 + rs.rand(2))
        C = zoo.spd(rs, 2, True)
        v = np.exp(rs.randn(2, 1))
        out = {}

        def call():
            out["m"] = M.WeightedProduct([M.HermitianPositiveDefinite(2),
                                          M.StrictlyPositiveVectors(2)], w)

        def state():
            if "m" not in out:
                return {}
            return {"i": np.array(out["m"].inner([C, v], [C, v], [C @ C, v])),
                    "g": np.array(out["m"].egrad2rgrad([C, v], [C, v])[1])}
        return call, state
    return func(o, st), None


def frozen(o, st):
    """A frozen distribution: what it stores shows in densities and draws."""
    from robuststats.models import probability as P
    rs = np.random.RandomState(o["seed"])
    p = o["p"]
    S = zoo.spd(rs, p, o["cplx"])
    m = rs.randn(p) + (1j * rs.randn(p) if o["cplx"] else 0)
    X = rs.randn(3, p) + (1j * rs.randn(3, p) if o["cplx"] else 0)
    S, m = st.give(S), (st.give(m) if o["mean"] else None)
    out = {}

    def call():
        kw = {"seed": 3} if o["own"] else {}
        if o["dist"] == "normal":
            out["d"] = P.complex_multivariate_normal(m, S, **kw)
        else:
            out["d"] = P.complex_multivariate_t(m, S, 3.5, **kw)
        if o["used"]:
            out["d"].logpdf(X)
            out["d"].rvs(2, random_state=5)

    def state():
        if "d" not in out:
            return {}
        return {"l": np.array(out["d"].logpdf(X)),
                "r": np.array(out["d"].rvs(3, random_state=np.random.RandomState(1)))}
    return call, state


def func(o, st):
    from robuststats.models import probability as P, mappings as M, cost, manifolds
    from robuststats.utils import linalg as L, generation_data as G
    rs = np.random.RandomState(o["seed"])
    p, n = o["p"], o["name"]
    S, C = st.give(zoo.spd(rs, p)), st.give(zoo.spd(rs, p, True))
    Z = st.give(rs.randn(6, p) + 1j * rs.randn(6, p))
    R = st.give(rs.randn(6, p))
    if n == "direct":
        return direct(o, st, rs)
    m = st.give(rs.randn(p) + (0 if o["real"] else 1j * rs.randn(p)))
    V, X = (S, R) if o["real"] else (C, Z)
    H = st.give(C @ C)
    tau = st.give(rs.rand(5, 1) + .1)
    U = st.give(np.linalg.qr(rs.randn(p, p) + (0 if o["real"] else 1j * rs.randn(p, p)))[0])

    def maps():
        M.arraytoreal(X), M.arraytocomplex(st.arrays[3][0]) if p % 2 == 0 else 0
        M.covariancetoreal(V), M.covariancetocomplex(V) if p % 2 == 0 else 0
        M.check_Hermitian(V), M.check_Symmetric(V), M.iscovariance(V)
        M.covariancestoreal(X.reshape(1, 6, p)[:, :p]) if p <= 6 else 0
    return {
        "maps": maps,
        "pdf": lambda: (P.complex_multivariate_normal.logpdf(X, m, V),
                        P.complex_multivariate_normal.pdf(X, m, V),
                        P.complex_multivariate_normal(m, V).logpdf(X)),
        "tpdf": lambda: P.complex_multivariate_t(m, V, 3).logpdf(X),
        "rvs": lambda: (P.complex_multivariate_t.rvs(m, V, 3, size=4),
                        P.complex_multivariate_normal.rvs(m, V, size=4),
                        P.complex_multivariate_t(m, V, 3).rvs(4)),
        "normal": lambda: (P.complex_multivariate_normal.entropy(m, V),
                           P.complex_multivariate_normal(m, V).rvs(3)),
        # samples and parameters of different kinds
        "mixed": lambda: (P.complex_multivariate_normal.logpdf(Z, None, S),
                          P.complex_multivariate_normal.logpdf(R, None, C),
                          P.complex_multivariate_normal(None, S).logpdf(Z),
                          P.complex_multivariate_normal(None, C).logpdf(R),
                          P.complex_multivariate_normal(m, C).logpdf(R),
                          P.complex_multivariate_t(None, S, 3).logpdf(Z),
                          P.complex_multivariate_t(None, C, 3).logpdf(R)),
        "cost": lambda: (cost.Tyler_cost_real(R, S), cost.Tyler_cost_complex(Z, C)),
        "linalg": lambda: [f(V) for f in (L.sqrtm, L.invsqrtm, L.logm, L.expm,
                                          L.hermitian, L.vec, L.vech, L.multiherm)]
        + [L.powm(V, .5), L.unvec(np.ravel(V)), L.unvech(m[:3] if p == 3 else m[:1])],
        "hpd": lambda: hpd(manifolds, p, C, H, Z),
        "kron": lambda: kron(manifolds, p, C, H),
        "sample": lambda: (G.sample_normal_distribution(5, S),
                           G.sample_complex_normal_distribution(5, C),
                           G.sample_compound_distribution(tau, S),
                           G.sample_complex_compound_distribution(tau, C),
                           (G.sample_tau_UUH_distribution if o["real"] else
                            G.sample_complex_tau_UUH_distribution)(tau, U)),
    }[n]


def direct(o, st, rs):
    """The estimation functions, without the validation of the classes."""
    from robuststats.estimation import base as B, covariance as K, structured as T
    cplx = not o["real"]
    X = rs.randn(o["n"], 2 * o["p"]) if o["p"] < 3 else rs.randn(o["n"], 3)
    if cplx:
        X = X + 1j * rs.randn(*X.shape)
    X = st.give(zoo.layout(X, o["layout"]))
    p = X.shape[1]
    init = st.give(zoo.spd(rs, p, cplx)) if o["start"] else None
    kw = dict(init=init, iter_max=o["iters"])
    c = "complex_" if cplx else ""
    if o["what"] == "empirical":
        return lambda: B.complex_empirical_covariance(X, assume_centered=o["centred"])
    if o["what"] == "mm":
        a, b = (2, 2) if p == 4 else (1, 3)
        return lambda: T.estimation_cov_kronecker_MM(X[:40], a, b, iter_max=o["iters"])
    if o["what"] == "natural":
        return lambda: getattr(K, c + "tyler_shape_matrix_naturalgradient")(
            X[:40], init=zoo.spd(rs, p, cplx) if init is None else init)
    f = getattr(K, c + {"huber": "huber_m_estimator_fixed_point",
                        "student": "student_t_mle_fixed_point",
                        "tyler": "tyler_shape_matrix_fixedpoint"}[o["what"]])
    if o["what"] == "tyler":
        return lambda: f(X, **kw)
    return lambda: f(X, .8 if o["what"] == "huber" else 3, **kw)


def hpd(manifolds, p, C, H, Z):
    m = manifolds.HermitianPositiveDefinite(p)
    m.exp(C, H), m.retr(C, H), m.log(C, H), m.dist(C, H), m.inner(C, H, H)
    m.egrad2rgrad(C, Z[:p]), m.proj(C, Z[:p]), m.norm(C, H), m.transp(C, H, H)
    m.ehess2rhess(C, H, H, H)


def kron(manifolds, p, C, H):
    m = manifolds.KroneckerHermitianPositiveElliptical(p, p, .8)
    x, u = [C, H], [H, C]
    m.inner(x, u, u), m.norm(x, u), m.egrad2rgrad(x, u), m.proj(x, u)
    m.exp(x, u), m.retr(x, u), m.transp(x, x, u)


def execute(plan, ctx):
    scratch = tempfile.mkdtemp(prefix="vsim-c05-")
    try:
        for k, o in enumerate(plan["ops"]):
            one(k, o, ctx, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def one(k, o, ctx, scratch):
    if o.get("fit", {}).get("data", {}).get("n", 9) < 6:
        raise InvalidPlan("too few samples")
    from ..clock import Clock
    flt = None
    if o["fault"]:
        mk = {"memory": lambda at: CallFault(at, MemoryError),
              "interrupt": lambda at: InterruptAt(at)}[o["fault"]["kind"]]
        st0 = Store("plain", scratch)
        call, _ = prepare_op(o, st0)
        dry = mk(None)
        ctx.mon.set_fault(dry)
        try:
            with Clock(tick=1e-6):
                call()
        finally:
            ctx.mon.set_fault(None)
        flt = mk(int(o["fault"]["where"] * max(1, dry.n)))
    st = Store(o["mode"], scratch)
    call, state = prepare_op(o, st)
    st.check("building " + o["op"])
    name = "%s %s%s" % (o["op"], o.get("spec", {}).get("cls", o.get("name", "")),
                        o.get("what", ""))
    exc = None
    ctx.mon.set_fault(flt)
    try:
        with Clock(tick=1e-6):
            call()
    except (Exception, KeyboardInterrupt) as e:
        if flt is None or flt.fired is None:
            if isinstance(e, ValueError) and "read-only" in str(e) or \
                    isinstance(e, ValueError) and "writeable" in str(e):
                raise Violation("writes-to-input", "%s: %s" % (name, e)) from e
            raise
        exc = e
    finally:
        ctx.mon.set_fault(None)
    if flt is not None and flt.fired:
        ctx.fault("fault:" + o["fault"]["kind"])
    if o["mode"] != "plain":
        ctx.fault("protected:" + o["mode"])
    st.check("%s%s" % (name, " (failed)" if exc else ""))
    ctx.sig(name, o["mode"], flt.fired if flt else None, type(exc).__name__,
            o.get("how"), o.get("dist"), o.get("cplx"), o.get("fit", {}).get("init") is not None)
    ctx.event(k, name, o["mode"], type(exc).__name__)
    if state is None:
        return
    held = state()
    for a in arrays_in(held):
        if st.aliases(a):
            raise Violation("shares-memory", "%s keeps the caller's array" % name)
    snap = [np.array(a) for a in arrays_in(held)]
    if st.scribble():
        ctx.fault("caller_writes")
    after = list(arrays_in(state()))
    if len(after) != len(snap) or any(not np.array_equal(a, b, equal_nan=True)
                                      for a, b in zip(after, snap)):
        raise Violation("follows-caller", "%s changed when the caller wrote to its own "
                        "array" % name)
    # and the other way: writing to what was learned leaves the caller alone
    for a in after:
        if a.flags.writeable:
            a[...] = 0
    st.check(name + " (its results were overwritten)")
