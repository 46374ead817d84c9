"""C11 the temporary seed restores the global generator on every way out."""
import numpy as np

from ..core import Violation, InvalidPlan
from ..mon import CallFault, InterruptAt

RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("one per (nesting shape, exits taken, fault kind and place) of runs in which "
        "a block is left other than by falling off its end")
REAL = ("robuststats.utils.montecarlo", "numpy global generator", "contextlib")
STUB = ("exceptions, generator close, interrupts and failing seeding (injected)",)
ASSUMES = ("Blocks are entered and left in last-in first-out order (one thread uses "
           "the global generator at a time).",
           "An interrupt is delivered where CPython delivers signals: on return of "
           "a call made by the package.")
SHRINK_LISTS = ("ops", "body")
SHRINK_INTS = {"k": 1}

EXITS = ("normal", "normal", "ValueError", "KeyboardInterrupt", "SystemExit",
         "StopIteration", "GeneratorClose", "GeneratorThrow", "return", "break",
         "CoroutineCancel", "MemoryError", "decorator")
DRAWS = ("randn", "rand", "randint", "normal1", "permutation", "gamma", "scipy",
         "shuffle", "choice", "reseed", "reset")


class Boom(Exception):
    pass


def draw_seed(rng):
    return rng.choice([None, 0, 1, 77, 77, 2 ** 32 - 1, rng.randrange(2 ** 32),
                       ["array", rng.randrange(1000)], ["np", rng.randrange(2 ** 31)]])


def draw_ops(rng, depth, n):
    ops = []
    for _ in range(n):
        if depth < 3 and rng.random() < (.45 if depth == 0 else .3):
            ops.append({"op": "with", "s": draw_seed(rng),
                        "exit": rng.choice(EXITS),
                        "body": draw_ops(rng, depth + 1, rng.randint(0, 4)),
                        "fault": rng.choice([None] * 5 + ["interrupt", "interrupt",
                                                          "enter", "badseed"]),
                        "at": rng.randint(0, 3),
                        "exc": rng.choice(["MemoryError", "OSError", "ValueError"])})
        else:
            ops.append({"op": rng.choice(DRAWS), "k": rng.randint(1, 5)})
    return ops


def gen(rng, tier):
    ops = draw_ops(rng, 0, rng.randint(1, 7))
    if rng.random() < .06:
        # recursion: every level seeds for itself
        for _ in range(rng.choice([5, 12, 40])):
            ops = draw_ops(rng, 3, rng.randint(0, 1)) + [
                {"op": "with", "s": draw_seed(rng), "exit": rng.choice(EXITS), "body": ops,
                 "fault": None, "at": 0, "exc": "OSError"}] + draw_ops(rng, 3, 1)
    return {"np_seed": rng.randrange(2 ** 32), "ops": ops}


def seed_value(s):
    if isinstance(s, list):
        if s[0] == "array":
            return np.array([s[1], 3, 5], dtype=np.uint32)
        return np.int64(s[1])
    return s


def one(r, op, k, model):
    if op == "randn":
        return r.randn(k, 2)
    if op == "rand":
        return r.rand(k)
    if op == "randint":
        return r.randint(0, 10 ** 6, size=k)
    if op == "normal1":
        return r.normal()           # leaves a cached second variate behind
    if op == "permutation":
        return r.permutation(3 + k)
    if op == "gamma":
        return r.gamma(0.1, 10, size=(k, 1))
    if op == "scipy":
        from scipy.stats import multivariate_normal as mvn
        return mvn.rvs(mean=np.zeros(2), cov=np.eye(2), size=k,
                       random_state=r if model else None)
    if op == "shuffle":
        a = np.arange(4 + k)
        r.shuffle(a)
        return a
    if op == "choice":
        return r.choice(100, size=k, replace=False)
    if op == "reseed":
        r.seed(k)
        return 0
    if op == "reset":
        r.set_state(np.random.RandomState(k).get_state())
        return 0
    raise InvalidPlan(op)


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


class Run:
    def __init__(self, ctx):
        from robuststats.utils.montecarlo import temp_seed
        self.temp_seed = temp_seed
        self.ctx = ctx

    def ops(self, ops, model):
        for o in ops:
            if o["op"] == "with":
                self.block(o, model)
                continue
            got = np.asarray(one(np.random, o["op"], o["k"], False))
            if model is None:           # seeded by the operating system
                continue
            want = np.asarray(one(model, o["op"], o["k"], True))
            if not np.array_equal(got, want):
                raise Violation("wrong-stream", "%s inside the block" % o["op"])
            self.ctx.event(o["op"], got.ravel()[:2])

    def body(self, o):
        m = None
        if o["s"] is not None:
            m = np.random.RandomState(0)
            m.seed(seed_value(o["s"]))
        self.entered = True
        self.ops(o["body"], m)

    def block(self, o, model):
        ctx = self.ctx
        before = np.random.get_state()
        self.entered = False
        flt = None
        if o["fault"] == "interrupt":
            flt = InterruptAt(o["at"])
        elif o["fault"] == "enter":
            flt = CallFault(o["at"], {"MemoryError": MemoryError, "OSError": OSError,
                                      "ValueError": ValueError}[o["exc"]])
        sent = {"ValueError": Boom("x"), "KeyboardInterrupt": KeyboardInterrupt("x"),
                "SystemExit": SystemExit(3), "StopIteration": StopIteration("x"),
                "MemoryError": MemoryError("x"), "GeneratorThrow": Boom("y"),
                }.get(o["exit"])
        got = None
        try:
            self.leave(o, sent, flt)
        except Violation:
            raise
        except BaseException as e:
            got = e
        finally:
            ctx.mon.set_fault(None)
        struck = flt is not None and flt.fired is not None
        after = np.random.get_state()
        if not same_state(before, after):
            raise Violation("not-restored", "exit %s, fault %s at %s, raised %r" % (
                o["exit"], o["fault"], flt.fired if flt else None, got))
        if struck or o["fault"] == "badseed":
            ctx.fault(o["fault"])
            if got is None:
                raise Violation("fault-hidden", "%s" % o["fault"])
        elif got is not sent:
            raise Violation("exception-changed", "raised %r instead of %r" % (got, sent))
        if o["exit"] != "normal":
            ctx.fault("exit:" + o["exit"])
        ctx.sig(o["exit"], o["fault"], flt.fired if flt else None,
                [b["op"] for b in o["body"]])
        ctx.event("left", o["exit"], o["fault"], struck)

    def enter_with(self, o, flt):
        s = seed_value(o["s"])
        if o["fault"] == "badseed":
            s = [-1, "seed", 2 ** 40][o["at"] % 3]
        if flt is not None:
            # the fault only counts calls made while entering / leaving
            run, mon = self, self.ctx.mon

            class Guard:
                def __enter__(g):
                    g.c = run.temp_seed(s)
                    mon.set_fault(flt)
                    try:
                        return g.c.__enter__()
                    finally:
                        mon.set_fault(None)

                def __exit__(g, *a):
                    if isinstance(flt, InterruptAt):
                        mon.set_fault(flt)
                    try:
                        return g.c.__exit__(*a)
                    finally:
                        mon.set_fault(None)
            return Guard()
        return self.temp_seed(s)

    def leave(self, o, sent, flt):
        e = o["exit"]
        if e == "decorator":
            if flt is None and o["fault"] != "badseed":
                self.temp_seed(seed_value(o["s"]))(lambda: self.body(o))()
                return
            e = "normal"
        if e in ("GeneratorClose", "GeneratorThrow"):
            def g():
                with self.enter_with(o, flt):
                    self.body(o)
                    yield 1
            it = g()
            next(it)
            if e == "GeneratorClose":
                it.close()
            else:
                it.throw(sent)
            return
        if e == "CoroutineCancel":
            import types

            @types.coroutine
            def pause():
                yield

            async def co():
                with self.enter_with(o, flt):
                    self.body(o)
                    await pause()
            c = co()
            c.send(None)
            c.close()
            return
        if e == "return":
            def f():
                with self.enter_with(o, flt):
                    self.body(o)
                    return 1
            f()
            return
        if e == "break":
            for _ in range(2):
                with self.enter_with(o, flt):
                    self.body(o)
                    break
            return
        with self.enter_with(o, flt):
            self.body(o)
            if sent is not None:
                raise sent


def execute(plan, ctx):
    np.random.seed(plan["np_seed"])
    m = np.random.RandomState(plan["np_seed"])
    r = Run(ctx)
    r.ops(plan["ops"], m)
    if not same_state(np.random.get_state(), m.get_state()):
        raise Violation("not-restored", "at the end")
