"""C18 a feature array is the sequence of what was appended to it."""
import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from . import _est as E

RUNS = {"quick": 6000, "thorough": 80000}
RULE = ("one per (component shapes, kinds and order of the operations, faults and "
        "refusals, final length class) of runs with at least two appends or a fault")
REAL = ("robuststats.estimation.base._FeatureArray", "numpy")
STUB = ("the holders of the arrays", "failing library calls and interrupts (injected)",
        "clock (virtual)")
ASSUMES = ("Interrupts are delivered on return of library calls.",
           "An export of an array is a window on it (only slices are independent).")
SHRINK_LISTS = ("ops",)
SHRINK_INTS = {"n": 1}
SHAPES = ([1], [3], [2, 2], [3, 3], [2, 3], [1, 1], [2, 2, 2])
DTYPES = ("float64", "complex128", "float32", "int64")


def gen(rng, tier):
    comps = [{"shape": rng.choice(SHAPES), "dtype": rng.choice(DTYPES),
              "sym": rng.choice(["none", "sym", "skew", "mixed"])}
             for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    big = rng.random() < .25
    ops = []
    for _ in range(rng.choice([2, 4, 6, 10, 16])):
        k = rng.choice(["one"] * 4 + ["batch"] * 4 + ["array", "self", "bad", "bad", "fault",
                                                      "fault", "slice", "slice", "keep",
                                                      "scribble", "copy", "read", "read",
                                                      "vector", "export"])
        o = {"op": k, "i": rng.randrange(4), "j": rng.randrange(4),
             "n": rng.choice([0, 1, 2, 3, 7, 20]), "s": rng.randrange(10 ** 6)}
        if big and k == "batch":
            o["n"] = rng.choice([300, 700, 999, 1000, 1001, 1500, 2300])
        if k == "bad":
            o["bad"] = rng.choice(["shape", "count", "dtype", "lengths", "type", "inner",
                                   "rank", "empty_array", "last"])
        if k == "fault":
            o["kind"] = rng.choice(["memory", "interrupt"])
            o["where"] = rng.random()
        if k in ("slice", "keep"):
            o["key"] = rng.choice(["int", "neg", "slice", "step", "back", "list", "mask",
                                   "beyond", "none"])
        ops.append(o)
    return {"comps": comps, "ops": ops, "src": rng.randrange(10 ** 6)}


def item(c, rs, n):
    shape = (n,) + tuple(c["shape"])
    x = rs.randn(*shape) * 3
    if c["dtype"].startswith("complex"):
        x = x + 1j * rs.randn(*shape)
    if c["dtype"] == "int64":
        x = np.round(x * 10)
    if len(c["shape"]) == 2 and c["shape"][0] == c["shape"][1] and c["sym"] != "none":
        t = np.swapaxes(x, -1, -2).conj()
        if c["sym"] == "mixed" and n:
            t[rs.randint(n)] *= rs.choice([1, -1, .5])
        x = x - t if c["sym"] == "skew" else x + t
    return x.astype(c["dtype"])


class Held:
    """An array and the list of items it should contain."""

    def __init__(self, fa, items):
        self.fa, self.items, self.typed = fa, items, bool(items)


def joined(comps, items):
    """items: list of tuples, one value per component -> arrays."""
    return [np.array([t[k] for t in items], dtype=c["dtype"]).reshape(
        (len(items),) + tuple(c["shape"])) for k, c in enumerate(comps)]


def verify(ctx, comps, h, what):
    fa, items = h.fa, h.items
    with ctx.oracle("feature array"):
        if len(fa) != len(items):
            raise Violation("wrong-length", "%s: %d instead of %d" % (
                what, len(fa), len(items)))
        if fa.nb_manifolds != len(comps):
            raise Violation("wrong-components", what)
        if not items:
            return
        want = joined(comps, items)
        if tuple(fa.shape) != tuple(w.shape for w in want):
            raise Violation("wrong-shape", "%s: %r" % (what, fa.shape))
        if tuple(fa.dtype) != tuple(w.dtype for w in want):
            raise Violation("wrong-dtype", "%s: %r" % (what, fa.dtype))
        compare(comps, exported(fa, comps), items, what)


def exported(fa, comps):
    e = fa.export()
    e = [e] if len(comps) == 1 else list(e)
    n = len(fa)
    return [np.asarray(a).reshape((n,) + tuple(c["shape"])) if n == 1 else np.asarray(a)
            for a, c in zip(e, comps)]


def compare(comps, got, items, what):
    if len(got) != len(comps):
        raise Violation("wrong-components", what)
    for k, (g, w) in enumerate(zip(got, joined(comps, items))):
        if g.shape != w.shape or not np.array_equal(g, w):
            bad = "shape %s instead of %s" % (g.shape, w.shape)
            if g.shape == w.shape:
                bad = "item %d" % int(np.argwhere(
                    (g != w).reshape(len(g), -1).any(axis=1))[0, 0])
            raise Violation("wrong-items", "%s, component %d: %s" % (what, k, bad))


def vector(comps, items):
    out = []
    for a in joined(comps, items):
        if a.ndim == 3 and a.shape[1] == a.shape[2]:
            t = np.swapaxes(a, 1, 2).conj()
            if (np.abs(a - t) < 1e-5).all() or (np.abs(a + t) < 1e-5).all():
                i, j = np.triu_indices(a.shape[1])
                a = a[:, i, j]
        out.append(a.reshape(len(a), -1))
    return np.concatenate(out, axis=1)


def key_of(o, n):
    """(key, positions) or (key, None) when the key must be refused."""
    rs = np.random.RandomState(o["s"])
    k = o["key"]
    every = list(range(n))
    if n == 0 or k == "beyond":
        return n + 3, None
    if k in ("int", "neg"):
        i = int(rs.randint(n))
        q = i if k == "int" else i - n
        t = rs.choice(["int"] * 3 + ["int32", "intp", "int16", "int64", "uint8", "uint64"])
        if t != "int" and np.can_cast(np.min_scalar_type(q), t):
            q = np.dtype(t).type(q)
        return q, [i]
    if k == "slice":
        a, b = sorted(rs.randint(0, n + 1, 2))
        s = slice(int(a), int(b) + 3)
    elif k == "step":
        s = slice(int(rs.randint(n)), None, int(rs.randint(1, 4)))
    elif k == "back":
        s = slice(None, None, -1)
    elif k == "none":
        s = slice(None)
    elif k == "list":
        i = rs.randint(0, n, size=rs.randint(1, 5) if rs.rand() < .85 else 64)
        return (i if rs.rand() < .7 else list(map(int, i))), [int(x) for x in i]
    else:
        m = rs.rand(n) < .5
        return m, [i for i in every if m[i]]
    return s, every[s]


def package(data, how):
    """What the caller passes: an array for one component, else a list or tuple."""
    if len(data) == 1 and how % 2:
        return data[0]
    return tuple(data) if how % 3 == 0 else list(data)


def execute(plan, ctx):
    if not plan["ops"] or not plan["comps"]:
        raise InvalidPlan("nothing")
    with Clock(tick=1e-6):
        run(plan, ctx)


def run(plan, ctx):
    from robuststats.estimation.base import _FeatureArray
    comps = plan["comps"]
    rs = np.random.RandomState(plan["src"])
    shapes = [tuple(c["shape"]) for c in comps]
    pool = [Held(_FeatureArray(*shapes), []), Held(_FeatureArray(*shapes), [])]
    sigs, appends = [], 0

    def batch(n, squeeze):
        data = [item(c, rs, n) for c in comps]
        new = [tuple(d[i].copy() for d in data) for i in range(n)]
        if squeeze:
            data = [d[0] if d.ndim > 1 else np.array(d[0]) for d in data]
        return data, new

    for step, o in enumerate(plan["ops"]):
        h = pool[o["i"] % len(pool)]
        k = o["op"]
        what = "step %d %s" % (step, {x: o[x] for x in ("op", "n", "bad", "key", "kind")
                                      if x in o})
        sigs.append((k, o.get("bad"), o.get("key"), min(o["n"], 4)))
        if k == "one":
            data, new = batch(1, o["s"] % 2)
            h.fa.append(package(data, o["s"]))
            h.items, h.typed = h.items + new, True
            for d in data:
                d[...] = 0              # the caller reuses its arrays
            appends += 1
        elif k == "batch":
            data, new = batch(o["n"], False)
            h.fa.append(package(data, o["s"]))
            h.items, h.typed = h.items + new, True
            for d in data:
                d[...] = 0
            appends += 1
        elif k in ("array", "self"):
            g = h if k == "self" else pool[o["j"] % len(pool)]
            if not g.items or len(h.items) + len(g.items) > 12000:
                continue
            h.fa.append(g.fa)
            h.items, h.typed = h.items + g.items, True
            appends += 1
        elif k == "bad":
            refuse(plan, ctx, h, o, comps, batch, what)
        elif k == "fault":
            faulty(ctx, h, o, batch, what, sigs)
            appends += 1
        elif k in ("slice", "keep"):
            key, pos = key_of(o, len(h.items))
            try:
                got = h.fa[key]
            except Exception as e:
                if pos is not None:
                    raise
                ctx.probe("refused_key")
                ctx.event(step, k, type(e).__name__)
            else:
                if pos is None:
                    raise Violation("key-accepted", what)
                s = Held(got, [h.items[i] for i in pos])
                if s.items:
                    verify(ctx, comps, s, what)
                elif len(got):
                    raise Violation("wrong-length", what)
                if k == "keep" and s.items and len(pool) < 6:
                    pool.append(s)
        elif k == "scribble":
            # writes to a slice stay in the slice
            if not h.items:
                continue
            n = len(h.items)
            s = h.fa[0:n] if o["s"] % 2 else h.fa[np.arange(n)]
            e = exported(s, comps)
            for a in e:
                try:
                    a[...] = -77
                except ValueError:
                    ctx.probe("read_only_export")
        elif k == "copy":
            if len(pool) < 6 and h.items:
                f = copy.deepcopy(h.fa) if o["s"] % 2 else pickle.loads(pickle.dumps(h.fa))
                pool.append(Held(f, list(h.items)))
        elif k == "read":
            str(h.fa), repr(h.fa), h.fa.shape, h.fa.dtype, h.fa.nb_manifolds
        elif k == "vector" and h.items:
            v = h.fa.vectorize()
            w = vector(comps, h.items)
            if v.shape != w.shape or not np.array_equal(v, w):
                raise Violation("wrong-vector", what)
            if o["s"] % 3 == 0 and v.flags.writeable:
                v[...] = -55            # the caller uses it as a scratch array
                ctx.fault("vector_overwritten")
        elif k == "export" and h.items:
            compare(comps, exported(h.fa, comps), h.items, what)
        for i, x in enumerate(pool):
            verify(ctx, comps, x, "%s, array %d" % (what, i))
        ctx.event(step, k, [len(x.items) for x in pool])
    if appends > 1:
        ctx.nontrivial = True
    ctx.sig([tuple(c["shape"]) for c in comps], tuple(sigs),
            tuple(min(len(x.items), 3) + (len(x.items) > 1000) for x in pool))


def refuse(plan, ctx, h, o, comps, batch, what):
    """Appends that make no sense are refused and change nothing."""
    from robuststats.estimation.base import _FeatureArray
    n = max(1, o["n"] % 5)
    data, _ = batch(n, False)
    b = o["bad"]
    if not h.typed:             # a refused append does not decide the type either
        data = [d.astype("complex64") for d in data]
    last = len(comps) - 1
    if b == "shape":
        data[last] = np.zeros((n,) + tuple(x + 1 for x in comps[last]["shape"]) + (
            (2, 2) if not comps[last]["shape"] else ()), dtype=comps[last]["dtype"])
    elif b == "rank":
        data[last] = data[last][None, None]
    elif b == "count":
        data = data + [data[0]]
    elif b == "last":
        if last == 0:
            return
        data = data[:-1]
    elif b == "dtype":
        if not h.items:
            return
        data[last] = data[last].astype("complex64")
    elif b == "lengths":
        if last == 0:
            return
        data[last] = np.concatenate([data[last], data[last]])
    elif b == "type":
        data = {"a": 1} if o["s"] % 2 else "abc"
    elif b == "inner":
        data[last] = data[last].tolist()
        if not isinstance(data[last], list):
            return
    elif b == "empty_array":
        data = _FeatureArray(*[tuple(c["shape"]) for c in comps])
    before = list(h.items)
    try:
        h.fa.append(data)
    except Exception as e:
        ctx.fault("refused_append")
        ctx.event(what, type(e).__name__)
    else:
        if b == "empty_array" and len(h.fa) == len(before):
            return
        raise Violation("bad-append-accepted", what)


def faulty(ctx, h, o, batch, what, sigs):
    """A failing append adds nothing; repeated, it adds its items once."""
    n = max(1, o["n"])
    data, new = batch(n, False)
    retry = o["s"] % 3
    if not h.typed and not retry:
        data = [d.astype("complex64") for d in data]
    mk = CallFault if o["kind"] == "memory" else (
        lambda at: InterruptAt(at, libraries=True))
    twin, dry = copy.deepcopy(h.fa), mk(None)
    ctx.mon.set_fault(dry)
    try:
        twin.append(list(data))
    finally:
        ctx.mon.set_fault(None)
    flt = mk(min(dry.n - 1, int(o["where"] * max(1, dry.n))))
    ctx.mon.set_fault(flt)
    exc = None
    try:
        h.fa.append(list(data))
    except (MemoryError, KeyboardInterrupt) as e:
        exc = e
    finally:
        ctx.mon.set_fault(None)
    if exc is None:
        if flt.fired and o["kind"] == "interrupt":
            raise Violation("fault-hidden", what)
        if not h.typed and not retry:
            h.fa = type(h.fa)(*[d.shape[1:] for d in data])
            return
        h.items, h.typed = h.items + new, True
        return
    ctx.fault(o["kind"])
    sigs.append(flt.fired)
    if len(h.fa) != len(h.items):
        raise Violation("failed-append-adds", "%s at %s: %d items instead of %d" % (
            what, flt.fired, len(h.fa), len(h.items)))
    if retry:                           # the caller tries again
        h.fa.append(list(data))
        h.items, h.typed = h.items + new, True
