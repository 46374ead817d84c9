"""C13 random streams are isolated from each other and from everything else."""
import io
import logging
import sys

import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..clock import Clock
from ..mon import CallFault, InterruptAt
from ..sched import Sched
from . import _est as E
from .c12 import same_state

RUNS = {"quick": 1800, "thorough": 26000}
RULE = ("one per (kinds of streams, order of the operations on them, faults that struck, "
        "thread interleaving hash) of runs where two streams, a fit or a fault interleave")
REAL = E.REAL + ("CPython threads (one runs at a time)",)
STUB = ("thread scheduler", "failing calls and interrupts during a draw (injected)",
        "clock (virtual)")
ASSUMES = ("Threads are pre-empted between lines of the package only.",
           "At most one thread draws from the global generator.",)
SHRINK_LISTS = ("ops", "streams", "threads")
SHRINK_INTS = {"n": 12, "k": 1}

# how a stream is made
KINDS = ("int", "int", "RandomState", "Generator", "frozen_int", "frozen_int",
         "frozen_RandomState", "frozen_Generator", "frozen_passed", "gen_int", "global",
         "global")
GLOBAL_EXTRA = ("textures", "lognormal", "covariance", "complex_covariance", "stiefel",
                "complex_stiefel", "compound", "numpy")


def gen(rng, tier):
    p = rng.choice([1, 2, 2, 3, 4])
    streams = []
    for i in range(rng.choice([2, 3, 4, 5])):
        streams.append({"kind": rng.choice(KINDS), "dist": rng.choice(["normal", "t"]),
                        "cplx": rng.random() < .65, "s": rng.choice([0, 0, 1, 2 ** 32 - 1])
                        if rng.random() < .3 else rng.randrange(2 ** 31),
                        "mean": rng.random() < .4, "df": rng.choice([1.5, 3.0, 8.0]),
                        "share": rng.random() < .4, "scene": rng.randrange(10 ** 6)})

    def ops(n):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < .62:
                o = {"op": "draw", "stream": rng.randrange(len(streams)),
                     "k": rng.choice([1, 2, 3, 7] * 4 + [60, 300]), "extra": rng.choice(GLOBAL_EXTRA)
                     if rng.random() < .4 else None}
            elif r < .8:
                o = {"op": "density", "stream": rng.randrange(len(streams)),
                     "what": rng.choice(["logpdf", "pdf", "entropy", "cdf"])}
            else:
                spec = E.draw_spec(rng, slow=rng.random() < .2)
                if spec["cls"] in zoo.KRON and rng.random() < .25:
                    spec = E.draw_spec(rng, (spec["cls"],), ab=rng.choice(
                        [(3, 3), (5, 2), (2, 4)]))
                if "iter_max" in spec["params"]:
                    spec["params"]["iter_max"] = min(spec["params"]["iter_max"], 7 if rng.random() < .85 else 60)
                o = {"op": "fit", "spec": spec, "fit": E.draw_fit(rng, spec),
                     "q": rng.choice(E.QUERIES), "verb": rng.random() < .3}
                if not E.slow(spec) and rng.random() < .25:
                    o["fit"]["data"]["odd"] = rng.choice(zoo.DEFICIENT)
                    if rng.random() < .3 and not spec.get("p"):
                        o["fit"]["data"].update(n=4, p=6, odd=None)
            o["fault"] = None
            if o["op"] != "fit" and rng.random() < .25:
                o["fault"] = rng.choice(["memory", "interrupt"])
                o["at"] = rng.randrange(8)
            out.append(o)
        return out
    plan = {"p": p, "streams": streams, "np_seed": rng.randrange(2 ** 31),
            "other": rng.randrange(2 ** 31), "threads": [],
            "level": rng.choice([50, 50, 20, 10]), "tick": rng.choice([1e-6, 1e-6, .3])}
    if rng.random() < .45:
        plan["threads"] = [{"ops": ops(rng.choice([2, 3, 4]))}
                           for _ in range(rng.choice([2, 2, 3]))]
        plan["ops"] = []
    else:
        plan["ops"] = ops(rng.choice([4, 6, 9]))
    return plan


# ---------------------------------------------------------------------------
class Stream:
    def __init__(self, d, p):
        from robuststats.models import probability as pr
        self.d, self.p = d, p
        rs = np.random.RandomState(d["scene"])
        self.c = zoo.spd(rs, p, d["cplx"])
        self.m = np.zeros(p, dtype=self.c.dtype)
        if d["mean"]:
            self.m = self.m + rs.randn(p) + (1j * rs.randn(p) if d["cplx"] else 0)
        self.x = rs.randn(5, p) + (1j * rs.randn(5, p) if d["cplx"] else 0)
        self.g = pr.complex_multivariate_normal if d["dist"] == "normal" else \
            pr.complex_multivariate_t
        k = d["kind"]
        self.state = None
        if k.endswith("RandomState"):
            self.state = np.random.RandomState(d["s"])
        elif k.endswith("Generator"):
            self.state = np.random.default_rng(d["s"])
        elif k.endswith("_int"):
            self.state = d["s"]
        self.obj = None
        if k.startswith("frozen"):
            seed = None if k == "frozen_passed" else self.state
            self.obj = self.g(*self.args(), seed=seed)
            if k == "frozen_passed":
                self.state = np.random.RandomState(d["s"])
        elif k == "gen_int":
            self.obj = type(self.g)(seed=d["s"])
        self.n = 0
        self.dead = False

    def args(self):
        return (self.m, self.c) if self.d["dist"] == "normal" else \
            (self.m, self.c, self.d["df"])

    def draw(self, k):
        d = self.d["kind"]
        self.n += 1
        if d == "int":
            # one stream per number: a new number for every draw
            r = self.g.rvs(*self.args(), size=k,
                           random_state=(self.d["s"] + self.n - 1) % 2 ** 32)
        elif d in ("RandomState", "Generator") or \
                d in ("frozen_RandomState", "frozen_Generator") and self.d["share"] \
                and self.n % 2 == 0:
            # whoever holds the generator advances it
            r = self.g.rvs(*self.args(), size=k, random_state=self.state)
        elif d == "frozen_passed":
            r = self.obj.rvs(size=k, random_state=self.state)
        elif d.startswith("frozen"):
            r = self.obj.rvs(size=k)
        elif d == "gen_int":
            r = self.obj.rvs(*self.args(), size=k)
        else:
            r = self.g.rvs(*self.args(), size=k)
        r = np.asarray(r)
        if bool(np.iscomplexobj(r)) != self.d["cplx"] or r.size != k * self.p:
            raise Violation("malformed:sample", "%s %s for %d of %d" % (
                r.dtype, r.shape, k, self.p))
        return np.array(r)

    def model(self, k):
        """The same draw through the module-level distribution and a generator
        that no one else has."""
        if self.state is None or self.d["kind"] in ("int", "global"):
            return None
        if not hasattr(self, "own"):
            s = self.d["s"]
            self.own = np.random.default_rng(s) if self.d["kind"].endswith("Generator") \
                else np.random.RandomState(s)
        return np.asarray(self.g.rvs(*self.args(), size=k, random_state=self.own))

    def density(self, what):
        o = self.obj if self.d["kind"].startswith("frozen") else None
        if what == "cdf":
            # integrates with random points of its own: only its effects are checked
            if self.d["dist"] != "normal" or self.p * (1 + self.d["cplx"]) > 6:
                what = "logpdf"
            elif o is None:
                return np.isfinite(self.g.cdf(self.x, *self.args()))
            else:
                return np.isfinite(o.cdf(self.x))
        if what == "entropy":
            if self.d["dist"] != "normal":
                what = "logpdf"
            elif o is None:
                return np.asarray(self.g.entropy(*self.args()))
            else:
                return np.asarray(o.entropy())
        if self.d["dist"] == "t" and o is None:
            o = self.g(*self.args())
        if self.d["cplx"] and what == "pdf" and o is not None:
            what = "logpdf"         # frozen densities of complex points go by logpdf
        x = self.x
        if o is not None:
            return np.asarray(getattr(o, what)(x))
        return np.asarray(getattr(self.g, what)(x, *self.args()))


def global_draw(kind, k, p):
    from robuststats.utils import generation_data as gd
    if kind == "textures":
        return gd.generate_textures_gamma_dist(k, .5)
    if kind == "lognormal":
        return gd.generate_textures_lognormal_dist(k)
    if kind == "covariance":
        return gd.generate_covariance(p + 1)
    if kind == "complex_covariance":
        return gd.generate_complex_covariance(p + 1)
    if kind == "stiefel":
        return gd.generate_stiefel(p + 1, p)
    if kind == "complex_stiefel":
        return gd.generate_complex_stiefel(p + 1, p)
    if kind == "compound":
        return gd.sample_compound_distribution(np.ones((k, 1)), np.eye(p))
    return np.random.randn(k)


def is_global(o, plan):
    return o["op"] == "draw" and plan["streams"][o["stream"]]["kind"] == "global"


def draw(o, st, plan):
    if is_global(o, plan) and o["extra"]:
        return np.array(global_draw(o["extra"], o["k"], plan["p"]))
    return st.draw(o["k"])


def fit(o):
    e = zoo.build(o["spec"])
    if o.get("verb") and hasattr(e, "verbosity"):
        e.verbosity = 2 if o["spec"]["cls"] == "KroneckerStudent" else True
    d = o["fit"]["data"]
    if d.get("odd") in zoo.DEFICIENT or d["n"] < d["p"]:
        # no estimate of full rank exists: only the generators are looked at
        try:
            E.run_fit(e, o["spec"], o["fit"])
        except (np.linalg.LinAlgError, ValueError):
            pass
        return None
    E.run_fit(e, o["spec"], o["fit"])
    r = {"query": E.query(e, o["spec"], o["q"], zoo.make_data(o["fit"]["data"]))}
    r["query"] = 0 if r["query"] is None else r["query"]
    r.update(zoo.learned(e))
    return r


def solo(plan, ops, keep):
    """Results of the operations in `keep` when nothing else happens."""
    np.random.seed(plan["np_seed"])
    st = [Stream(d, plan["p"]) for d in plan["streams"]]
    out = {}
    for i in keep:
        o = ops[i]
        if o["op"] == "draw":
            out[i] = draw(o, st[o["stream"]], plan)
        elif o["op"] == "density":
            out[i] = st[o["stream"]].density(o["what"])
    return out


def streams_of(ops, plan):
    """Operation numbers of each stream: the global ones together."""
    r = {}
    for i, o in enumerate(ops):
        if o["op"] == "draw":
            k = "global" if is_global(o, plan) else o["stream"]
            r.setdefault(k, []).append(i)
    return r


class Runner:
    def __init__(self, plan, ctx, ops):
        self.plan, self.ctx, self.ops = plan, ctx, ops
        self.st = [Stream(d, plan["p"]) for d in plan["streams"]]
        self.got = {}
        self.broken = set()         # streams that a fault has cut
        self.log = []
        self.exact = True           # no thread draws from the global generator meanwhile

    def step(self, i):
        o, plan, ctx = self.ops[i], self.plan, self.ctx
        before = np.random.get_state()
        glob = is_global(o, plan)
        st = self.st[o["stream"]] if "stream" in o else None
        name = "global" if glob else o.get("stream")
        if name in self.broken and o["op"] == "draw":
            return
        f = None
        if o["fault"] and self.exact:
            f = CallFault(o["at"]) if o["fault"] == "memory" else \
                InterruptAt(o["at"], libraries=True)
            ctx.mon.set_fault(f)
        try:
            if o["op"] == "draw":
                r = draw(o, st, plan)
            elif o["op"] == "density":
                r = st.density(o["what"])
            else:
                try:
                    r = fit(o)
                except np.linalg.LinAlgError:
                    r = None
        except (MemoryError, KeyboardInterrupt):
            if f is None or not f.fired:
                raise
            r = None
        finally:
            if f is not None:
                ctx.mon.set_fault(None)
        if f is not None and f.fired:
            ctx.fault("draw_" + o["fault"])
            if o["op"] == "draw":
                self.broken.add(name)
        elif r is not None:
            self.got[i] = r
        self.log.append((o["op"], name if o["op"] != "fit" else o["spec"]["cls"],
                         f.fired if f else None))
        if not glob and self.exact and not same_state(before, np.random.get_state()):
            raise Violation("global-state-changed", "by %s of %s" % (
                o["op"], plan["streams"][o["stream"]] if st else o["spec"]))
        ctx.event(i, o["op"], name, None if r is None or isinstance(r, dict)
                  else np.ravel(r)[:2])


def execute(plan, ctx):
    root = logging.getLogger()
    saved = sys.stdout, sys.stderr, root.level, root.handlers[:]
    try:
        # output goes nowhere, but is made
        sys.stdout = sys.stderr = io.StringIO()
        root.setLevel(plan.get("level", 50))
        root.handlers[:] = [logging.NullHandler()]
        with Clock(tick=plan.get("tick", 1e-6)):
            run(plan, ctx)
    finally:
        sys.stdout, sys.stderr, level, root.handlers[:] = saved
        root.setLevel(level)


def run(plan, ctx):
    ops = list(plan["ops"])
    spans = []
    for t in plan["threads"]:
        spans.append(list(range(len(ops), len(ops) + len(t["ops"]))))
        ops += t["ops"]
    for o in ops:
        if o.get("stream", 0) >= len(plan["streams"]):
            raise InvalidPlan("no such stream")
        if o["op"] == "fit" and o["fit"]["data"]["n"] < 4:
            raise InvalidPlan("too few samples")
    if spans:
        # a stream belongs to one thread; so does the global generator
        owner = {}
        for t, span in enumerate(spans):
            for i in list(span):
                o = ops[i]
                if "stream" not in o:
                    continue
                k = "global" if plan["streams"][o["stream"]]["kind"] == "global" \
                    else o["stream"]
                if owner.setdefault(k, t) != t:
                    span.remove(i)
        used = [i for s in spans for i in s]
    else:
        used = list(range(len(ops)))
    if not used:
        raise InvalidPlan("nothing")
    np.random.seed(plan["np_seed"])
    first = np.random.get_state()
    r = Runner(plan, ctx, ops)
    trace = 0
    if spans:
        r.exact = False
        s = Sched(ctx.mon, ctx.choose)
        tasks = [s.spawn("t%d" % i, lambda span=span: [r.step(k) for k in span])
                 for i, span in enumerate(spans)]
        try:
            s.run()
        finally:
            s.kill_all()
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        ctx.switches += s.switches
        if s.switches > len(tasks):
            ctx.fault("preemption", s.switches)
        trace = s.trace
        if "global" not in owner and not same_state(first, np.random.get_state()):
            raise Violation("global-state-changed", "by threads that never draw from it")
    else:
        for i in used:
            r.step(i)
    by = streams_of([o if i in r.got and i in used else {"op": "none"}
                     for i, o in enumerate(ops)], plan)
    judge(plan, ctx, ops, used, r, by)
    if len(by) > 1 or len(used) > len(by):
        ctx.nontrivial = True
    ctx.sig([plan["streams"][k]["kind"] if k != "global" else k for k in by],
            r.log, trace)


def judge(plan, ctx, ops, used, r, by):
    for k, idx in by.items():
        # the draws of this stream when nothing else happens
        def alone(idx=idx):
            return solo(plan, ops, idx)
        try:
            want = E.pristine(alone)
        except E.PeerFailure as e:
            raise Violation("unexpected:" + e.name, str(e))
        kind = "global" if k == "global" else plan["streams"][k]["kind"]
        for i in idx:
            if not zoo.close(r.got[i], want[i], 1e-12):
                raise Violation("stream-disturbed", "%s draw %d: %s instead of %s" % (
                    kind, i, E.short(r.got[i]), E.short(want[i])))
        if k != "global":
            st = Stream(plan["streams"][k], plan["p"])
            for i in idx:
                m = st.model(ops[i]["k"])
                if m is not None and not zoo.close(np.ravel(r.got[i]), np.ravel(m), 1e-12):
                    raise Violation("not-its-seed", "%s: %s, from its seed %s" % (
                        kind, E.short(r.got[i]), E.short(m)))
    # no two draws anywhere are the same numbers
    seen = {}
    for k, idx in by.items():
        if k == "global":
            continue
        for i in idx:
            v = complex(np.ravel(r.got[i])[0])
            d = plan["streams"][k]
            if v in seen and seen[v][0] is d:
                raise Violation("stream-repeats", "%s draws the same twice" % d["kind"])
            seen[v] = (d, i)
    # densities and fits do not depend on any generator
    rest = [i for i in used if i in r.got and ops[i]["op"] != "draw"]
    if rest:
        def other():
            np.random.seed(plan["other"])
            o2 = dict(plan, np_seed=plan["other"])
            out = solo(o2, ops, [i for i in rest if ops[i]["op"] == "density"])
            for i in rest:
                if ops[i]["op"] == "fit":
                    np.random.seed(plan["other"] // 2)
                    out[i] = fit(ops[i])
            return out
        try:
            want = E.pristine(other)
        except E.PeerFailure as e:
            raise Violation("unexpected:" + e.name, str(e))
        for i in rest:
            a, b = r.got[i], want[i]
            ok = zoo.same(a, b, 1e-9) is None if isinstance(a, dict) else zoo.close(a, b, 1e-9)
            if not ok:
                raise Violation("depends-on-generator", "%s" % (ops[i]["op"],))
