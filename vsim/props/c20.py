"""C20 optimisation on the package's manifolds keeps its points on the manifold."""
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from . import _est as E

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one per (manifold with its sizes and stack, operations in order, kinds of "
        "disturbance) of runs of at least two steps")
REAL = E.REAL
STUB = ("the program walking on the manifold, cost functions and their failures",
        "numpy's global random generator (seeded by the run)", "clock (virtual)")
ASSUMES = ("Points keep a condition number below 1e6; beyond, a walk restarts.",
           "Non-tangent disturbances of a step are at most 1e-6 of its length.",)
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"k": 1, "n": 1}
LEAVES = ("SPV", "HPD", "SHPD")
OPS = ("exp", "exp", "retr", "retr", "log", "transp", "restart", "grad", "proj", "hess",
       "zero", "solve", "carry", "units")


def gen(rng, tier):
    kind = rng.choice(["SPV", "HPD", "HPD", "SHPD", "SHPD", "product", "product", "kron",
                       "kron"])
    k = rng.choice([1, 1, 1, 1, 2, 2, 3, 3, 4, 5])

    def leaf(name, k):
        return {"leaf": name, "n": rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 7]) if name != "SHPD"
                else rng.choice([2, 2, 2, 3, 3, 4, 5, 6]), "k": k}
    m = {"kind": kind}
    if kind in LEAVES:
        m["parts"] = [leaf(kind, k)]
    elif kind == "kron":
        a, b = rng.choice([(2, 2), (1, 2), (2, 1), (3, 2), (2, 3),
                           (1, 3), (4, 2), (2, 5)])
        df = rng.choice([2., 4., 20.])
        m.update(alpha=(df + a * b) / (df + a * b + 1),
                 parts=[{"leaf": "SHPD", "n": a, "k": k}, {"leaf": "HPD", "n": b, "k": k}])
    else:
        m["parts"] = [leaf(rng.choice(LEAVES), 1 if rng.random() < .7 else 2)
                      for _ in range(rng.choice([1, 2, 2, 3]))]
        for q in m["parts"]:
            if q["leaf"] == "SPV":
                q["k"] = 1
        m["weights"] = [rng.choice([.5, 1., 1., 2., 3., 7.3, 50.]) for _ in m["parts"]] \
            if rng.random() < .8 else None
    n = rng.choice([2, 4, 8, 16]) if tier == "quick" else rng.choice([4, 8, 16, 40])
    ops = []
    for _ in range(n):
        o = {"op": rng.choice(OPS), "s": rng.randrange(10 ** 6),
             "len": rng.choice([.01, .1, .3, 1., 2.]),
             "gain": rng.choice([1, 1, 1, 1e-8, 1e-3, 5., -1.]),
             "noise": rng.choice([0, 0, 0, 1e-12, 1e-6])}
        if o["op"] == "solve":
            o.update(solver=rng.choice(["SD", "CG"]), crash=None)
            if rng.random() < .4:
                o["crash"] = {"at": rng.randrange(12),
                              "kind": rng.choice(["raise", "memory", "interrupt"])}
        ops.append(o)
    if sum(o["op"] == "solve" for o in ops) > 2:
        for o in ops[4:]:
            if o["op"] == "solve":
                o["op"] = "exp"
    return {"man": m, "ops": ops, "start": rng.randrange(10 ** 6)}


# ---------------------------------------------------------------------------
# the geometry, one matrix at a time
# ---------------------------------------------------------------------------
def herm(m):
    return (m + np.swapaxes(m, -1, -2).conj()) / 2


def fun(m, f):
    w, v = np.linalg.eigh(herm(m))
    return (v * f(w)) @ v.conj().T


class Leaf:
    """Reference of one component: stacks are lists of independent matrices."""

    def __init__(self, q):
        self.name, self.n, self.k = q["leaf"], q["n"], q["k"]
        self.special = self.name == "SHPD"
        self.vec = self.name == "SPV"
        self.shape = (self.n, self.k) if self.vec else \
            (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)

    def build(self):
        from robuststats.models import manifolds as M
        return {"SPV": M.StrictlyPositiveVectors, "HPD": M.HermitianPositiveDefinite,
                "SHPD": M.SpecialHermitianPositiveDefinite}[self.name](self.n, self.k)

    def items(self, x):
        if self.vec:
            return [np.diag(c) for c in np.real(x).T]
        return list(x) if self.k > 1 else [x]

    def pack(self, xs):
        if self.vec:
            return np.stack([np.diag(x) for x in xs], axis=1)
        return np.stack(xs) if self.k > 1 else xs[0]

    def each(self, f, *a):
        return self.pack([f(*t) for t in zip(*[self.items(x) for x in a])])

    def exp(self, x, u):
        def one(x, u):
            s, i = fun(x, np.sqrt), fun(x, lambda w: 1 / np.sqrt(w))
            return s @ fun(i @ u @ i, np.exp) @ s
        return self.each(one, x, u)

    def log(self, x, y):
        def one(x, y):
            s, i = fun(x, np.sqrt), fun(x, lambda w: 1 / np.sqrt(w))
            return s @ fun(i @ y @ i, np.log) @ s
        return self.each(one, x, y)

    def inner(self, x, u, v):
        return [np.real(np.trace(np.linalg.solve(a, b) @ np.linalg.solve(a, c)))
                for a, b, c in zip(self.items(x), self.items(u), self.items(v))]

    def traces(self, x, u):
        return [np.real(np.trace(np.linalg.solve(a, b)))
                for a, b in zip(self.items(x), self.items(u))]

    def tangent(self, x, u):
        u = u if self.vec else herm(u)
        if self.special:
            u = self.each(lambda a, b: b - np.trace(np.linalg.solve(a, b)).real
                          / self.n * a, x, u)
        return u

    def cond(self, x):
        return max(np.linalg.cond(a) for a in self.items(x))

    def noise(self, rs):
        v = rs.randn(*self.shape)
        return v if self.vec else v + 1j * rs.randn(*self.shape)

    def inside(self, x, where):
        if not isinstance(x, np.ndarray) or x.shape != self.shape:
            raise Violation("left-manifold", "%s: %s point of shape %s"
                            % (where, self.name, np.shape(x)))
        if not np.all(np.isfinite(x)):
            raise Violation("left-manifold", "%s: %s point is not finite"
                            % (where, self.name))
        if self.vec:
            if np.iscomplexobj(x) or not (x > 0).all():
                raise Violation("left-manifold", "%s: vector not positive" % where)
            return
        for a in self.items(x):
            if zoo.relerr(a, a.conj().T) > 1e-10:
                raise Violation("left-manifold", "%s: %s not Hermitian by %.1e"
                                % (where, self.name, zoo.relerr(a, a.conj().T)))
            if not np.linalg.eigvalsh(herm(a))[0] > 0:
                raise Violation("left-manifold", "%s: %s not positive" % (where, self.name))
            if self.special and abs(np.linalg.det(a) - 1) > 1e-7:
                raise Violation("left-manifold", "%s: determinant %s"
                                % (where, np.linalg.det(a)))

    def tangent_ok(self, x, u, where):
        s = max(np.max(np.abs(u)), 1e-300)
        if np.shape(u) != self.shape or not np.all(np.isfinite(u)):
            raise Violation("not-tangent", "%s: %s shape %s" % (where, self.name, np.shape(u)))
        if np.max(np.abs(self.tangent(x, u) - u)) > \
                1e-9 * s * max(1, self.cond(x)) + 1e-12 * np.max(np.abs(x)):
            raise Violation("not-tangent", "%s: %s" % (where, self.name))


class Ref:
    """Reference of the whole manifold."""

    def __init__(self, m):
        self.m = m
        self.leaves = [Leaf(q) for q in m["parts"]]
        self.single = m["kind"] in LEAVES
        if m["kind"] == "kron":
            a, b = self.leaves[0].n, self.leaves[1].n
            self.w = [m["alpha"] * b, m["alpha"] * a]
            self.extra = (m["alpha"] - 1) * a ** 2
        else:
            self.w = m.get("weights") or [1.] * len(self.leaves)
            self.extra = None

    def build(self):
        from robuststats.models import manifolds as M
        if self.single:
            return self.leaves[0].build()
        if self.m["kind"] == "kron":
            return M.KroneckerHermitianPositiveElliptical(
                self.leaves[0].n, self.leaves[1].n, self.m["alpha"], self.leaves[0].k)
        return M.WeightedProduct([f.build() for f in self.leaves], self.m["weights"])

    def parts(self, x):
        return [x] if self.single else list(x)

    def join(self, xs):
        """A tangent vector as the solvers make them."""
        if self.single:
            return xs[0]
        from pymanopt.manifolds.product import _ProductTangentVector
        return _ProductTangentVector(xs)

    def point(self, xs):
        return xs[0] if self.single else list(xs)

    def each(self, name, *a):
        return [getattr(f, name)(*t) for f, t in
                zip(self.leaves, zip(*[self.parts(x) for x in a]))]

    def inner(self, x, u, v):
        t = sum(w * sum(i) for w, i in zip(self.w, self.each("inner", x, u, v)))
        if self.extra is not None:
            t += self.extra * sum(
                p * q for p, q in zip(self.leaves[1].traces(x[1], u[1]),
                                      self.leaves[1].traces(x[1], v[1])))
        return t

    def norm(self, x, u):
        return np.sqrt(max(self.inner(x, u, u), 0))

    def inside(self, x, where):
        if not self.single and len(x) != len(self.leaves):
            raise Violation("left-manifold", "%s: %d components" % (where, len(x)))
        for f, a in zip(self.leaves, self.parts(x)):
            f.inside(a, where)

    def tangent_ok(self, x, u, where):
        if not self.single and len(u) != len(self.leaves):
            raise Violation("not-tangent", "%s: %d components" % (where, len(u)))
        for f, a, b in zip(self.leaves, self.parts(x), self.parts(u)):
            f.tangent_ok(a, b, where)

    def draw_vec(self, x, rs, length):
        u = self.join([f.tangent(a, f.noise(rs) if f.vec else a @ f.noise(rs))
                       for f, a in zip(self.leaves, self.parts(x))])
        if self.single and self.leaves[0].vec:
            u = u * x
        n = self.norm(x, u)
        return u * (length / n) if n > 0 else u

    def cond(self, x):
        return max(self.each("cond", x))

    def reals(self):
        return not any(f.special for f in self.leaves)


def total(v):
    """The scalar an inner product, norm or distance amounts to: stacks of
    vectors report one number per vector."""
    return float(np.sum(v))


def expect(ok, kind, detail):
    if not ok:
        raise Violation(kind, detail)


def near(a, b, tol):
    return abs(a - b) <= tol * max(abs(b), 1e-300)


# ---------------------------------------------------------------------------
def execute(plan, ctx):
    with Clock(tick=1e-6):
        np.random.seed(plan["start"] % 2 ** 32)
        run(plan, ctx)


def run(plan, ctx):
    ref = Ref(plan["man"])
    man = ref.build()
    x = man.rand()
    ref.inside(x, "rand")
    held = None             # a tangent vector carried along
    dist0 = set()
    for i, o in enumerate(plan["ops"]):
        rs = np.random.RandomState(o["s"])
        where = "%s %s of %s" % (i, o["op"], plan["man"]["kind"])
        if ref.cond(x) > 1e5:
            x, held = man.rand(), None
            ref.inside(x, where)
            ctx.probe("restarted")
        c = ref.cond(x)
        tol = 1e-9 * max(1., c)
        u = ref.draw_vec(x, rs, o["len"])
        keep = snapshot(ref, x), snapshot(ref, u)
        if o["op"] in ("exp", "retr"):
            x2 = step(ref, man, ctx, x, u, o, rs, where, tol, dist0)
            if held is not None:
                held = move(ref, man, x, x2, held, where)
            new = x2
        elif o["op"] == "log":
            new = target(ref, man, x, u, o, where, tol)
            if held is not None:
                held = move(ref, man, x, new, held, where)
        elif o["op"] in ("transp", "carry"):
            y = ref.point(ref.each("exp", x, u))
            v = ref.draw_vec(x, rs, o["len"])
            isometry(ref, man, x, y, u, v, where)
            held = v if o["op"] == "carry" else held
            new = x
        elif o["op"] == "restart":
            new = man.rand()
            ref.inside(new, where)
            # (a determinant of one leaves a 1 x 1 matrix no direction)
            lost = any(f.special and f.n == 1 for f in ref.leaves)
            r = man.zerovec(new) if lost else man.randvec(new)
            ref.tangent_ok(new, r, where)
            expect(lost or ref.norm(new, r) > 0, "randvec", where)
            if not lost and ref.single and not ref.leaves[0].vec:
                expect(near(ref.norm(new, r), 1, 1e-6), "randvec", where + ": not unit")
            held = None
        elif o["op"] == "units":
            # the same covariance in other units
            z = [1. if f.special else 10. ** rs.uniform(-9, 9) for f in ref.leaves]
            new = ref.point([q * a for q, a in zip(z, ref.parts(x))])
            v = ref.join([q * a for q, a in zip(z, ref.parts(u))])
            expect(near(total(man.inner(new, v, v)), total(man.inner(x, u, u)), tol),
                   "metric-depends-on-units", where)
            if held is not None:
                held = ref.join([q * a for q, a in zip(z, ref.parts(held))])
        elif o["op"] == "grad":
            gradient(ref, man, x, u, rs, where, tol)
            new = x
        elif o["op"] == "proj":
            projection(ref, man, x, u, rs, where, tol)
            new = x
        elif o["op"] == "hess":
            hessian(ref, man, x, u, rs, where, tol)
            new = x
        elif o["op"] == "zero":
            z = man.zerovec(x)
            for how in ("exp", "retr"):
                y = getattr(man, how)(x, z)
                expect(all(zoo.close(a, b, tol) for a, b in
                           zip(ref.parts(y), ref.parts(x))), "zero-step-moves", where)
            ref.tangent_ok(x, z, where)
            expect(abs(total(man.inner(x, z, u))) == 0, "zero-vector", where)
            new = x
        elif o["op"] == "solve":
            new = solve(ref, man, ctx, x, u, o, where)
            held = None
        else:
            raise InvalidPlan(o["op"])
        for a, b in ((x, keep[0]), (u, keep[1])):
            expect(all(np.array_equal(p, q) for p, q in zip(ref.parts(a), b)),
                   "argument-modified", where)
        ctx.event(i, o["op"])
        x = new
    ctx.sig(plan["man"]["kind"], [(f.name, f.n, f.k) for f in ref.leaves],
            [o["op"] for o in plan["ops"]][:6], sorted(dist0))
    if len(plan["ops"]) > 1:
        ctx.nontrivial = True


def snapshot(ref, x):
    return [np.array(a) for a in ref.parts(x)]


def disturb(ref, x, u, o, rs, kinds, ctx):
    g, e = o["gain"], o["noise"]
    if g != 1 and abs(g) * o["len"] <= 5:
        u = u * g
        kinds.add("gain")
        ctx.fault("step_gain")
    if e:
        n = [e * np.max(np.abs(a)) * f.noise(rs) for f, a in zip(ref.leaves, ref.parts(u))]
        u = ref.join([a + b for a, b in zip(ref.parts(u), n)])
        kinds.add("noise")
        ctx.fault("step_noise")
    return u


def step(ref, man, ctx, x, u, o, rs, where, tol, kinds):
    u2 = disturb(ref, x, u, o, rs, kinds, ctx)
    y = getattr(man, o["op"])(x, u2)
    ref.inside(y, where)
    t = ref.norm(x, u2)
    want = ref.each("exp", x, u2)
    for f, a, w, p in zip(ref.leaves, ref.parts(y), want, ref.parts(x)):
        if f.special:
            w = f.each(lambda m: m / np.real(np.linalg.det(m)) ** (1 / f.n), w)
        if o["op"] == "exp":
            ok = o["noise"] == 1e-6 or zoo.close(a, w, tol * np.exp(min(t, 5)))
            expect(ok, "exp-not-geodesic", "%s: %s by %.1e" % (where, f.name,
                                                                zoo.relerr(a, w)))
        elif t < .5:
            # a retraction agrees with the geodesic to first order
            s = max(np.max(np.abs(q)) for q in f.items(p))
            n = np.sqrt(ref.norm(x, u2) ** 2 / min(ref.w)) if ref.extra is None else 3 * t
            expect(np.max(np.abs(a - w)) <= s * (3 * n * n + tol + 10 * o["noise"]),
                   "retraction-not-first-order", "%s: %s by %.1e at %.1e" % (
                       where, f.name, np.max(np.abs(a - w)), t))
    if o["op"] == "exp" and not o["noise"]:
        d = man.dist(x, y)
        if ref.single and ref.leaves[0].vec:
            d = np.sqrt(np.sum(np.square(d)))
        expect(near(total(d), t, 1e-5) or abs(total(d) - t) < tol * 10,
               "distance-not-length", "%s: %.8g for a step of %.8g" % (where, total(d), t))
    return y


def target(ref, man, x, u, o, where, tol):
    """Moving by the logarithm reaches its target."""
    y = ref.point(ref.each("exp", x, u))
    l = man.log(x, y)
    ref.tangent_ok(x, l, where)
    for f, a, b, q in zip(ref.leaves, ref.parts(l), ref.parts(u), ref.parts(x)):
        expect(zoo.close(a, b, 0, tol * np.max(np.abs(q)) * 10),
               "log-not-inverse", "%s: %s" % (where, f.name))
    z = man.exp(x, l)
    ref.inside(z, where)
    for a, b in zip(ref.parts(z), ref.parts(y)):
        expect(zoo.close(a, b, tol * 10), "log-misses-target", where)
    t = ref.norm(x, u)
    a, b = man.dist(x, y), man.dist(y, x)
    m = man.norm(x, l)
    if ref.single and ref.leaves[0].vec:
        a, b, m = (np.sqrt(np.sum(np.square(q))) for q in (a, b, m))
    for d, what in ((a, "dist"), (b, "dist back"), (m, "norm of log")):
        expect(abs(total(d) - t) <= 1e-6 * t + tol * 10, "distance-not-length",
               "%s: %s %.8g for %.8g" % (where, what, total(d), t))
    i = total(man.inner(x, l, l))
    expect(abs(i - t * t) <= 1e-6 * t * t + tol * 10, "inner-not-metric",
           "%s: %.8g for %.8g" % (where, i, t * t))
    return z


def isometry(ref, man, x, y, u, v, where):
    tu, tv = man.transp(x, y, u), man.transp(x, y, v)
    ref.tangent_ok(y, tu, where)
    ref.tangent_ok(y, tv, where)
    tol = 1e-8 * max(1, ref.cond(x), ref.cond(y))
    s = ref.norm(x, u) * ref.norm(x, v)
    for got, want in ((ref.inner(y, tu, tv), ref.inner(x, u, v)),
                      (total(man.inner(y, tu, tv)), ref.inner(x, u, v)),
                      (ref.inner(y, tu, tu), ref.inner(x, u, u))):
        expect(abs(got - want) <= tol * max(s, ref.norm(x, u) ** 2), "transport-not-isometry",
               "%s: %.8g instead of %.8g" % (where, got, want))


def move(ref, man, x, y, v, where):
    """A vector carried along the walk, as conjugate gradients do."""
    w = man.transp(x, y, v)
    ref.tangent_ok(y, w, where + " (carried)")
    n0, n1 = ref.norm(x, v), ref.norm(y, w)
    expect(near(n1, n0, 1e-7 * max(1, ref.cond(x), ref.cond(y))), "transport-not-isometry",
           "%s: carried length %.8g becomes %.8g" % (where, n0, n1))
    return w


def dot(ref, g, v):
    return sum(np.real(np.sum(np.conj(a) * b)) for a, b in zip(ref.parts(g), ref.parts(v)))


def euclidean(ref, rs):
    """A Euclidean gradient: of a function of a Hermitian matrix, or of any."""
    keep = rs.rand() < .6
    return ref.join([f.noise(rs) if f.vec or not keep else herm(f.noise(rs))
                     for f in ref.leaves])


def gradient(ref, man, x, v, rs, where, tol):
    """The Riemannian gradient represents the differential in the metric."""
    g = euclidean(ref, rs)
    r = man.egrad2rgrad(x, g)
    ref.tangent_ok(x, r, where)
    want = dot(ref, g, v)
    s = ref.norm(x, r) * ref.norm(x, v)
    expect(abs(ref.inner(x, r, v) - want) <= tol * max(s, abs(want)), "gradient-not-dual",
           "%s: %.8g instead of %.8g" % (where, ref.inner(x, r, v), want))
    expect(abs(total(man.inner(x, r, v)) - want) <= tol * max(s, abs(want)),
           "inner-not-metric", where)
    n = man.norm(x, r)
    if ref.single and ref.leaves[0].vec:
        n = np.sqrt(np.sum(np.square(n)))
    expect(near(total(n), ref.norm(x, r), max(tol, 1e-8)), "norm-not-metric", where)


def projection(ref, man, x, v, rs, where, tol):
    a = ref.join([f.noise(rs) for f in ref.leaves])
    p = man.proj(x, a)
    p = p if ref.single else ref.join(list(p))
    ref.tangent_ok(x, p, where)
    for f, q, w in zip(ref.leaves, ref.parts(p), ref.each("tangent", x, a)):
        expect(zoo.close(q, w, tol, 1e-12), "projection", "%s: %s" % (where, f.name))
    q = man.proj(x, v)
    for m, n in zip(ref.parts(q), ref.parts(v)):
        expect(zoo.close(m, n, tol, 1e-12), "projection-not-idempotent", where)


def hessian(ref, man, x, u, rs, where, tol):
    """Second derivative of a linear function along the geodesic."""
    if not ref.reals() or ref.extra is not None:
        return
    g = ref.join([f.noise(rs) if f.vec else herm(f.noise(rs)) for f in ref.leaves])
    e = ref.join([f.noise(rs) if f.vec else herm(f.noise(rs)) for f in ref.leaves])
    e = e * rs.choice([0., 1.])
    v = ref.draw_vec(x, rs, 1.)
    h = man.ehess2rhess(x, g, e, u)
    h = h if ref.single else ref.join(list(h))
    ref.tangent_ok(x, h, where)
    want = dot(ref, e, v)
    for f, *q in zip(ref.leaves, ref.parts(x), ref.parts(g), ref.parts(u), ref.parts(v)):
        for a, b, c, d in zip(*[f.items(t) for t in q]):
            want += np.real(np.trace(b @ (c @ np.linalg.solve(a, d) +
                                          d @ np.linalg.solve(a, c)))) / 2
    s = ref.norm(x, h) * ref.norm(x, v)
    expect(abs(ref.inner(x, h, v) - want) <= tol * max(s, abs(want)), "hessian",
           "%s: %.8g instead of %.8g" % (where, ref.inner(x, h, v), want))


def fixed_arity(f, ref):
    from pymanopt.function import Callable
    return Callable({1: lambda a: f(a), 2: lambda a, b: f(a, b),
                     3: lambda a, b, c: f(a, b, c)}[len(ref.leaves)])


class Callback(Exception):
    pass


def solve(ref, man, ctx, x, u, o, where):
    """A solver of pymanopt towards a target; every point it visits is checked."""
    from pymanopt import Problem
    from pymanopt.solvers import SteepestDescent, ConjugateGradient
    y = ref.point(ref.each("exp", x, u))
    inv = [f.each(np.linalg.inv, q) for f, q in zip(ref.leaves, ref.parts(y))]
    n = [0]
    crash = dict(o["crash"]) if o["crash"] else None

    def visit(a, what):
        ref.inside(a, where + " visited")
        if crash and n[0] == crash["at"]:
            crash["fired"] = True
            raise {"raise": Callback, "memory": MemoryError,
                   "interrupt": KeyboardInterrupt}[crash["kind"]]("injected")
        n[0] += 1

    # f(a) = sum tr(a y^-1) + tr(a^-1 y): least at a = y for every component
    def cost(*a):
        visit(ref.point(a), "cost")
        t = 0
        for f, p, q, i in zip(ref.leaves, a, ref.parts(y), inv):
            for P, Q, I in zip(f.items(p), f.items(q), f.items(i)):
                t += np.real(np.trace(P @ I) + np.trace(np.linalg.solve(P, Q)))
        return t

    def egrad(*a):
        visit(ref.point(a), "egrad")
        out = []
        for f, p, q, i in zip(ref.leaves, a, ref.parts(y), inv):
            out.append(f.each(lambda P, Q, I: I - np.linalg.solve(
                P, Q) @ np.linalg.inv(P), p, q, i))
        return out[0] if ref.single else out

    pb = Problem(manifold=man, cost=fixed_arity(cost, ref), egrad=fixed_arity(egrad, ref),
                 verbosity=0)
    if ref.single and ref.leaves[0].vec and ref.leaves[0].k > 1:
        return x        # a product of separate problems, as its norm says
    s = {"SD": SteepestDescent, "CG": ConjugateGradient}[o["solver"]](maxiter=60)
    try:
        z = s.solve(pb, x=x)
    except (Callback, MemoryError, KeyboardInterrupt):
        if not (crash and crash.get("fired")):
            raise
        ctx.fault("cost_" + crash["kind"])
        return x
    if crash and crash.get("fired"):
        raise Violation("fault-hidden", where)
    ref.inside(z, where)
    m = sum(2 * f.n * f.k for f in ref.leaves)
    crash = None
    c0, c1 = cost(*ref.parts(x)) - m, cost(*ref.parts(z)) - m
    ctx.probe("solved")
    expect(c1 <= c0 + 1e-9 * m, "solver-goes-up", "%s: %.3g to %.3g" % (where, c0, c1))
    # (weights far apart make the problem as hard as they please)
    expect(max(ref.w) > 8 * min(ref.w) or c1 <= 1e-2 * c0 + 1e-6, "solver-stuck",
           "%s (%s): %.3g to %.3g from the optimum" % (where, o["solver"], c0, c1))
    return z
