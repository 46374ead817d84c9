"""C12 a Monte-Carlo trial depends on its own seed only."""
import os
import pickle

import joblib
import numpy as np

from .. import zoo
from ..core import Violation, InvalidPlan
from ..mon import CallFault, InterruptAt
from ..sched import Deadlock
from . import _batch as B
from . import _est as E

RUNS = {"quick": 900, "thorough": 16000}
RULE = ("one per (what a trial draws and fits, worker kind, completion order, crashes, "
        "faults, retries and restarts of the study) of runs with a fault, pollution or "
        "reordering")
REAL = B.REAL
STUB = B.STUB + ("the study program: chunks, saved table, retries, restarts",
                 "failing calls and interrupts inside a trial (injected)")
ASSUMES = B.ASSUMES + ("Trials run in worker processes or one after the other; threads "
                       "share numpy's global generator and are outside the property.",)
SHRINK_LISTS = ("steps", "parts", "ests", "trials")
SHRINK_INTS = {"n": 12, "n_jobs": 1}

DRAWS = ("normal", "normal", "real_normal", "t", "t", "real_t", "frozen_normal",
         "frozen_t", "compound", "complex_compound", "lognormal", "uuh", "complex_uuh",
         "stiefel", "hpd_point", "vec_point")


def gen(rng, tier):
    p = rng.choice([2, 3, 4] * 6 + [7, 9])
    cplx = rng.random() < .6
    ests = []
    for _ in range(rng.choice([1, 1, 2])):
        cls = rng.choice((zoo.CPLX_FP if cplx else zoo.REAL_FP)
                         + (zoo.EMP[1] if cplx else zoo.EMP[0],))
        P = zoo.draw_params(rng, cls)
        if "iter_max" in P:
            P["iter_max"] = min(P["iter_max"], 8 if rng.random() < .85 else 60)
        if "Tyler" in cls and rng.random() < .2:
            P["method"] = "natural gradient"
            p = 2
        ests.append({"cls": cls, "params": P})
    trials = [rng.randrange(10 ** 4) for _ in range(rng.choice([2, 3, 4, 6, 9]))]
    parts = [{"draw": rng.choice(DRAWS), "n": rng.randint(4 * p + 2, 5 * p + 8)
              if rng.random() < .85 else rng.choice([70, 130, 260]),
              "nu": rng.choice([.5, 1.5, 1.5, 4., 6., 20.])}
             for _ in range(rng.choice([1, 1, 2, 3]))]
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        steps.append({
            "job": {"n_jobs": rng.choice([1, 1, 2, 2, 3, 4, -1]),
                    "backend": rng.choice(["default", "loky", "multiprocessing"]),
                    "outer": None},
            "cluster": dict(B.draw_cluster(rng), crash=rng.choice(
                [None, None, {"task": rng.randrange(4), "when": rng.choice(
                    ["start", "end"])}]), submit_fail=rng.choice([None] * 5 + [2]),
                interrupt_poll=rng.choice([None] * 6 + [3])),
            "pollute": [rng.choice([None, None, ["draw", rng.randint(1, 4)],
                                    ["seed", rng.randrange(100)], ["normal", 1]])
                        for _ in range(4)],
            "fault": rng.choice([None, None, None, {
                "kind": rng.choice(["memory", "interrupt"]), "call": rng.randrange(3),
                "at": rng.random()}]),
            "order": rng.choice(["asked", "reverse", "shuffled"]),
            "chunk": rng.choice([1, 2, 3, 50]),
            "restart": rng.random() < .4})
    return {"p": p, "cplx": cplx, "ests": ests, "trials": trials, "parts": parts,
            "base": rng.randrange(10 ** 6), "steps": steps,
            "shared": rng.random() < .5, "nested": rng.random() < .3,
            "scene": rng.randrange(10 ** 6), "tick": rng.choice([1e-6, 1e-3]),
            "np_seed": rng.randrange(2 ** 31)}


# ---------------------------------------------------------------------------
# one trial, as in the package's examples
# ---------------------------------------------------------------------------
def sample(kind, n, p, cplx, scene, nu):
    """(n, p) samples drawn from the global generator by the package."""
    from robuststats.models import probability as pr, manifolds as mf
    from robuststats.utils import generation_data as gd
    S, C = scene
    c = C if cplx else S
    mean = np.zeros(p, dtype=c.dtype)
    if kind == "normal":
        X = pr.complex_multivariate_normal.rvs(mean=mean, cov=c, size=n)
    elif kind == "real_normal":
        X = pr.complex_multivariate_normal.rvs(np.zeros(p), S, n)
    elif kind == "t":
        X = pr.complex_multivariate_t.rvs(mean, c, 3.0, size=n)
    elif kind == "real_t":
        X = pr.complex_multivariate_t.rvs(np.zeros(p), S, 2.5, n)
    elif kind == "frozen_normal":
        f = pr.complex_multivariate_normal(mean, c)
        X = np.concatenate([f.rvs(size=n - 2), f.rvs(size=2)])
    elif kind == "frozen_t":
        X = pr.complex_multivariate_t(mean, c, 4.0).rvs(size=n)
    elif kind == "compound":
        X = gd.sample_compound_distribution(
            gd.generate_textures_gamma_dist(n, nu), gd.generate_covariance(p) + S).T
    elif kind == "complex_compound":
        X = gd.sample_complex_compound_distribution(
            gd.generate_textures_gamma_dist(n, nu),
            gd.generate_complex_covariance(p, unit_det=True)).T
    elif kind == "lognormal":
        X = gd.sample_complex_compound_distribution(
            gd.generate_textures_lognormal_dist(n), C).T
    elif kind == "uuh":
        X = gd.sample_tau_UUH_distribution(gd.generate_textures_gamma_dist(n, nu),
                                           gd.generate_stiefel(p, p - 1)).T
    elif kind == "complex_uuh":
        X = gd.sample_complex_tau_UUH_distribution(
            gd.generate_textures_gamma_dist(n, nu),
            gd.generate_complex_stiefel(p, p - 1)).T
    elif kind == "stiefel":
        X = gd.sample_normal_distribution(n, S).T @ gd.generate_stiefel(p, p)
    elif kind == "hpd_point":
        m = mf.HermitianPositiveDefinite(p)
        x = m.rand()
        X = gd.sample_complex_normal_distribution(n, x + .1 * np.real(
            m.inner(x, m.randvec(x), m.randvec(x))) ** 2 * np.eye(p)).T
    elif kind == "vec_point":
        x = mf.StrictlyPositiveVectors(p).rand().ravel()
        X = gd.sample_normal_distribution(n, np.diag(x) + S).T
    else:
        raise InvalidPlan(kind)
    if cplx:
        X = np.asarray(X)
        if np.isrealobj(X):
            X = X + 1j * np.roll(X, 1, axis=0)
        return X
    return np.real(X)


def trial(study, i, ests=None):
    """The table row of one trial."""
    from robuststats.utils.montecarlo import temp_seed
    rs = np.random.RandomState(study["scene"])
    scene = zoo.spd(rs, study["p"]), zoo.spd(rs, study["p"], True)
    if ests is None:
        ests = [zoo.build(s) for s in study["ests"]]
    row = []
    with temp_seed(study["base"] + i):
        for k, part in enumerate(study["parts"]):
            if study["nested"] and k:
                with temp_seed(study["base"] + 7 * i + k):
                    X = sample(part["draw"], part["n"], study["p"], study["cplx"], scene,
                               part["nu"])
            else:
                X = sample(part["draw"], part["n"], study["p"], study["cplx"], scene,
                               part["nu"])
            row.append(np.array(X))
            for e in ests:
                e.fit(X)
                row.append(np.array(e.covariance_))
    return row


def worker(study, i, pollution, ests):
    """A trial in a worker that does other things with the global generator."""
    if pollution is not None:
        what, k = pollution
        if what == "draw":
            np.random.rand(k)
        elif what == "seed":
            np.random.seed(k)
        else:
            np.random.randn(1)      # leaves a cached variate
    before = np.random.get_state()
    row = trial(study, i, ests)
    return i, row, same_state(before, np.random.get_state())


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def row_close(a, b):
    return len(a) == len(b) and all(zoo.close(x, y, 1e-9) for x, y in zip(a, b))


def reference(study, i):
    def alone():
        try:
            return trial(study, i)
        except np.linalg.LinAlgError:
            return None             # these numbers cannot be estimated
    try:
        return E.pristine(alone)
    except E.PeerFailure as e:
        raise Violation("unexpected:" + e.name, str(e))


def execute(plan, ctx):
    if not plan["trials"] or not plan["parts"]:
        raise InvalidPlan("empty study")
    for x in plan["parts"]:
        if x["n"] < 4 * plan["p"] + 2:
            raise InvalidPlan("too few samples")
    np.random.seed(plan["np_seed"])
    study = {k: plan[k] for k in ("p", "cplx", "ests", "parts", "base", "scene", "nested")}
    # a trial is its seed: the same number twice is the same trial
    todo = list(dict.fromkeys(plan["trials"]))
    want = {i: reference(study, i) for i in todo}
    todo = [i for i in todo if want[i] is not None]
    if not todo:
        ctx.probe("nothing_estimable")
        return
    table, log = {}, []
    ests = [zoo.build(s) for s in plan["ests"]] if plan["shared"] else None
    steps = list(plan["steps"]) + [{"job": {"n_jobs": 1, "backend": "default",
                                            "outer": None}, "cluster": {}, "pollute": [None],
                                    "fault": None, "order": "asked", "chunk": 50,
                                    "restart": False}]
    for st in steps:
        left = [i for i in todo if i not in table]
        if not left:
            left = todo[:2]         # repeat some: the table must not change
        if st["order"] == "reverse":
            left = left[::-1]
        elif st["order"] == "shuffled":
            left = sorted(left, key=lambda i: (i * 2654435761) % 1000003)
        left = left[:st["chunk"]]
        run_chunk(plan, ctx, st, study, left, ests, table, want, log)
        if st["restart"]:
            # the program dies; the saved table is all that survives
            table = pickle.loads(pickle.dumps(table))
            np.random.seed(ctx.choose(1000, "restart"))
            ests = [zoo.build(s) for s in plan["ests"]] if plan["shared"] else None
            ctx.fault("restart")
    # whatever is missing is done last
    for i in todo:
        if i not in table:
            table[i] = trial(study, i, ests)
        if not row_close(table[i], want[i]):
            raise Violation("trial-not-reproduced", "trial %d after %s" % (i, log))
    ctx.sig([x["draw"] for x in plan["parts"]], [s["cls"] for s in plan["ests"]], log)


def run_chunk(plan, ctx, st, study, left, ests, table, want, log):
    pol = st["pollute"] or [None]
    flt = st["fault"]
    polluted = any(pol[k % len(pol)] for k in range(len(left)))
    before = np.random.get_state()
    sequential = st["job"]["n_jobs"] == 1
    if flt is not None and sequential:
        # one trial in this process fails half way
        i = left[flt["call"] % len(left)]
        kind = (lambda at: CallFault(
        at, skip=("numpy.random.mtrand.RandomState.set_state",))) if flt["kind"] == "memory" else \
            (lambda at: InterruptAt(at, libraries=True))
        probe = kind(None)
        ctx.mon.set_fault(probe)
        trial(study, i, ests)
        ctx.mon.set_fault(None)
        if probe.n:
            f = kind(min(probe.n - 1, int(flt["at"] * probe.n)))
            ctx.mon.set_fault(f)
            try:
                trial(study, i, ests)
            except (MemoryError, KeyboardInterrupt):
                pass
            finally:
                ctx.mon.set_fault(None)
            if f.fired:
                ctx.fault("trial_" + flt["kind"])
                log.append(("fault", flt["kind"], f.fired))
            if not same_state(before, np.random.get_state()):
                raise Violation("global-state-changed", "trial %d failed in %s" % (
                    i, f.fired))
    with B.cluster(dict(plan, cluster=st["cluster"]), ctx) as cl, B.config(st["job"]):
        try:
            rows = joblib.Parallel(n_jobs=st["job"]["n_jobs"])(
                joblib.delayed(worker)(study, i, pol[k % len(pol)], ests)
                for k, i in enumerate(left))
        except (KeyboardInterrupt, OSError, Exception) as e:
            if isinstance(e, (Violation, Deadlock)) or not (
                    ctx.faults["worker_killed"] or ctx.faults["submit_fails"]
                    or ctx.faults["interrupt_while_waiting"]):
                raise
            rows = []               # the chunk is lost and done again later
            log.append(("lost", type(e).__name__))
    if polluted:
        ctx.fault("polluted_generator")
    if cl.completed_order != sorted(cl.completed_order):
        ctx.fault("reordered_completion")
    log.append((st["job"]["n_jobs"], st["job"]["backend"], len(left), cl.completed_order))
    for i, row, clean in rows:
        if not clean:
            raise Violation("global-state-changed", "by trial %d" % i)
        if not row_close(row, want[i]):
            k = [zoo.close(x, y, 1e-9) for x, y in zip(row, want[i])].index(False)
            raise Violation("trial-not-reproduced", "trial %d, %s %d: %s instead of %s, "
                            "after %s" % (i, "entry", k, E.short(row[k]),
                                          E.short(want[i][k]), log))
        table[i] = row
    if not (sequential and polluted) and not same_state(before, np.random.get_state()):
        raise Violation("global-state-changed", "by a study on %s workers" % (
            st["job"]["n_jobs"],))
    ctx.event("chunk", left, len(rows))
