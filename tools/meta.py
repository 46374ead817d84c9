#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is
claimed when vsim/props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
BASE = "robuststats/estimation/base.py"
COV = "robuststats/estimation/covariance.py"
STR = "robuststats/estimation/structured.py"
ONL = "robuststats/online/estimation.py"
MON = "robuststats/utils/montecarlo.py"
VRB = "robuststats/utils/verbose.py"
PRB = "robuststats/models/probability.py"
GEN = "robuststats/utils/generation_data.py"
MAN = "robuststats/models/manifolds.py"
MAP = "robuststats/models/mappings.py"
LIN = "robuststats/utils/linalg.py"
CST = "robuststats/models/cost.py"


def P(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, observe=observe, note=note, state=state)


PROPS = [
P("C01", "Batch covariances do not depend on how the batch was executed",
  "Estimating the covariances of a batch of trials returns, in trial order, exactly what one fresh copy of the given estimator learns from each trial alone, for every number of workers, worker kind, completion order, batching and thread interleaving, and for any options passed on to the fits. The given estimator is only a prototype: repeated and concurrent transforms, earlier fits of it and other trials never change a result, and the precision of the input (single, double, complex; integers count as double) is that of the output.",
  ["schedules", "configurations", "inputs"],
  "Every estimator of the package and scikit-learn covariance estimators, every worker count (1 to 8 and -1), worker kind (in-process, threads, processes with read-only shared memory), completion order, dispatch batching, thread interleaving at line granularity, batches of 0 to 130 trials.",
  "The tests transform one small batch with one worker and with two real workers; neither the completion order nor the interleaving is controlled, and threads are never used.",
  [BASE],
  [("copy per trial and fill by trial index", BASE + ": CovariancesEstimation.transform, _fit_transform_covariance_copy")],
  ["returned array of CovariancesEstimation.transform / fit_transform"],
  "Seeded search over simulated worker pools and thread schedules; numerical equality to 1e-9 relative (precision of the input for single)."),
P("C02", "Batch features do not depend on how the batch was executed",
  "Estimating the features of a batch of trials returns one entry per trial, in trial order, each equal to what a fresh copy of the given estimator learns from that trial alone, whatever the number and kind of workers, the completion order and the thread interleaving. The prototype estimator, the transformer and the trials are left as they were, and results of one transform never change when another runs.",
  ["schedules", "configurations", "inputs"],
  "Estimators with one array, several arrays or a scalar as feature; every worker count and kind, completion order, batching and interleaving; several transforms of one transformer, also concurrently.",
  "The tests check one sequential transform of one estimator.",
  [BASE],
  [("copy per trial, features appended in order", BASE + ": FeaturesEstimation.transform, _feature_estimation, _FeatureArray.append")],
  ["returned feature array: length, items, export, vectorize"],
  "Seeded search over simulated worker pools and thread schedules."),
P("C03", "A fault during a batch is an error, never a wrong or partial result",
  "If a trial cannot be estimated, a worker dies, a worker cannot be started, memory runs out or the user interrupts while a batch is being estimated, the call raises instead of returning a partial, padded or misordered result. Afterwards prototype, transformer and input are unchanged, and the same call without the fault returns the correct batch.",
  ["fault_sequences", "crash_points", "schedules"],
  "Bad trials at any position, killed workers at any task (before or after the work), failing submissions, allocation failures and interrupts at any call, in sequential, threaded and process execution.",
  "No test makes any part of a batch fail.",
  [BASE],
  [("errors of the workers propagate to the caller", BASE + ": CovariancesEstimation.transform, FeaturesEstimation.transform")],
  ["exception or returned batch", "state of prototype and transformer afterwards", "retry"],
  "Seeded search over fault kind, place and schedule."),
P("C04", "Concurrent callers using distinct objects get what each gets alone",
  "Threads that use their own estimators, online estimators, feature arrays and distributions, on shared read-only data, each observe exactly the results they would observe running alone, under every interleaving. No fit, query or append in one thread waits for ever for another thread or is affected by it.",
  ["schedules"],
  "2 to 4 threads, each with a history of fits, queries, updates and appends on its own objects; every interleaving at line granularity.",
  "No test uses threads.",
  [BASE, COV, STR, ONL, PRB],
  [("no module-level mutable state is used by the estimations", COV), ("state lives in the objects", BASE)],
  ["everything each thread reads: learned attributes, answers, exceptions"],
  "Seeded search over interleavings of real threads, one running at a time."),
P("C05", "Data given to the package stays the caller's",
  "No operation writes to an array it was given (samples, batches, initial points, estimates, features, probability arguments), whether the operation succeeds, fails or is interrupted, so read-only and memory-mapped inputs work. What an object has learned or stored does not change when the caller later writes to those arrays, nor do the caller's arrays change when the object is used further.",
  ["inputs", "histories", "fault_sequences"],
  "Every estimator, batch transform, online estimator, feature array and distribution; ordinary, read-only and memory-mapped inputs of every layout; a fault at any call; caller writes at any point afterwards.",
  "The tests never protect, map or modify their inputs.",
  [BASE, COV, STR, ONL, PRB],
  [("covariances and estimates are copied when stored", BASE + ": _set_covariance; " + ONL + ": set_estimate"), ("feature arrays copy what is appended", BASE + ": _FeatureArray.append")],
  ["caller's arrays after each operation", "learned attributes after caller writes"],
  "Seeded search; bytes of the inputs compared before and after."),
P("C06", "A fit depends on its data, initial point and parameters only",
  "What an estimator learns from a fit is a function of the samples, the initial point and the parameters in effect: the same as a new object with these parameters learns in a process without history, whatever fits, failed fits, queries, parameter changes, copies and work on other objects came before. Queries (precision, distances, scores, transforms, error norms) never change what was learned.",
  ["histories", "fault_sequences"],
  "Histories of up to 8 operations on one object, other objects and module functions, with failing and interrupted fits among them, for every estimator and for the online estimator.",
  "The tests fit each object once or twice in one order.",
  [COV, STR, BASE, ONL],
  [("fit reads parameters and arguments only", COV + ": fit of every estimator"), ("online fit restarts its iteration counter", ONL + ": fit")],
  ["learned attributes after each fit against a process without history", "answers of queries"],
  "Seeded search over histories; reference computed by a forked process without history."),
P("C07", "Reported parameters are in effect; copies are independent",
  "After any sequence of construction, parameter changes (accepted or refused), cloning, copying and pickling, the parameters an estimator reports are the ones it was last given and the ones its next fit uses. Copies carry parameters and learned state, clones carry the parameters only, and using one object never changes another.",
  ["histories", "programs"],
  "Families of objects built by clone, copy, deepcopy, pickle and parameter changes, in every order, each object fitted and queried at any point, for every estimator, the batch transformers and the online estimator.",
  "The tests construct with fixed parameters and never clone, copy, pickle or change one.",
  [COV, STR, ONL, BASE],
  [("constructor stores parameters, fit reads them", COV + ": __init__, fit"), ("derived quantities computed when used", STR + ": KroneckerStudent.alpha, manifold")],
  ["get_params", "learned attributes of fits after each change"],
  "Seeded search over operation histories against a parameter model."),
P("C08", "A fit that fails leaves what was learned before, entirely",
  "When a fit raises - invalid samples or initial point, numerical failure, lack of memory or an interrupt at any point - the estimator's learned attributes (covariance, precision, location, error, iteration count, factors) are either all the previous ones or all those of the new fit, never a mixture, and an estimator not fitted before does not answer with half a fit. A failed fit always raises, changes no parameter, and the next fit works as on a new object.",
  ["fault_sequences", "crash_points"],
  "Every estimator, fitted before or not; a failure at any call made to the numerical libraries, bad input of eight kinds, an interrupt at any call of such a library.",
  "No test makes a fit fail after it has started.",
  [COV, STR, BASE],
  [("covariance and precision stored together, after all computations", BASE + ": _set_covariance"), ("attributes assigned last", COV + ": fit; " + STR + ": fit")],
  ["learned attributes and parameters after the exception", "a following fit"],
  "Seeded search over failure kind and place; interrupts are placed on library calls, not between the final assignments."),
P("C09", "A fixed-point estimation can be stopped anywhere and resumed",
  "For the fixed-point estimators (Huber, Student-t and Tyler, real and complex), stopping after any number of iterations and resuming from the estimate reached - in the same object, a new one, another process, after a failure - visits exactly the iterates of an uninterrupted run of the published recursion, within the iteration budget, with the reported error and iteration count being those of the run and the result normalised as asked. Left to converge, the result satisfies the estimator's defining equation to the asked precision, does not depend on the start, and for Student-t maximises the likelihood; the Kronecker-structured iterative estimator likewise traces one run whatever its budget, never increases its cost, and ends at a stationary point.",
  ["crash_points", "schedules", "inputs"],
  "Any split of an estimation into slices with faults and migrations between them; dimensions 2 to 8, all parameters, all normalisations, initial points and scales.",
  "The tests run each estimator once to convergence or to a fixed budget and compare with nothing or with one other estimate.",
  [COV, STR, LIN],
  [("fixed-point loops", COV + ": *_fixed_point, *_fixedpoint"), ("MM loop", STR + ": estimation_cov_kronecker_MM"), ("inverse square root", LIN + ": invsqrtm")],
  ["covariance, err_, iteration_ after every slice", "residual of the defining equation"],
  "Seeded search; trajectories compared with an independent reference recursion to 1e-8 relative."),
P("C10", "Checkpoint, crash and restart resume exactly where the checkpoint was",
  "Saving an estimator, online estimator, feature array or batch transformer with pickle or joblib at any point and restoring it in a new process gives an object that continues exactly as the saved one would: same learned state, parameters, step sizes, stored features and results of all later operations. A program that checkpoints, is killed at any point and restarts from its last whole checkpoint ends with the results of a program that was never killed.",
  ["crash_points", "histories"],
  "Any place of checkpoints and kills, torn last checkpoints, several crashes, every pickle protocol, joblib plain, compressed and memory-mapped; every kind of object.",
  "No test saves or restores anything.",
  [COV, STR, ONL, BASE],
  [("objects hold plain attributes only", COV + ": __init__"), ("step counter and estimate are attributes", ONL)],
  ["everything the program reads after each operation"],
  "Seeded search over operations, checkpoint and crash places; each life of the program is a separate process.",
  [("_iteration", "updates since the start, sets the step size", ONL), ("_len, _array", "stored features and capacity", BASE)]),
P("C11", "Temporary seeding always restores the global random state",
  "Inside a temporarily seeded block the global generator produces exactly the stream of that seed, nested blocks included. However the block ends - normally, by any exception, interrupt, early return, generator close or cancellation, or by a fault while entering - the global generator afterwards is exactly as it was before the block, and the exception that ended the block is the one the caller sees.",
  ["fault_sequences", "histories"],
  "Nested blocks to any depth, any draws (also ones leaving cached variates), reseeding inside the block, any exit, faults at any call while entering and interrupts while leaving.",
  "No test leaves a seeded block by an exception.",
  [MON],
  [("save, seed, restore in finally", MON + ": temp_seed")],
  ["values drawn inside and after the block", "generator state"],
  "Seeded search over block structures against a reference generator; interrupts are placed at C calls of the package."),
P("C12", "A Monte-Carlo trial depends on its own seed only",
  "A trial that seeds itself and then draws data with the package's generators or distributions and fits the package's estimators gives the same result whichever worker runs it, in whatever order, after whatever other trials or random draws, and however often it is retried after a crash. A study therefore has the same table of results for any number of workers and any history of crashes and resumptions, and leaves the global random state of the calling process as it was.",
  ["schedules", "crash_points", "fault_sequences"],
  "Studies of up to 24 trials over data generators, distributions and estimators, on simulated process pools with any order, crashes and retries, polluted worker generators, partial results saved and resumed.",
  "The example runs once on real workers; no test runs a study.",
  [MON, GEN, PRB, COV],
  [("temporary seeding around a trial", MON + ": temp_seed"), ("generators draw from the global generator only", GEN), ("distributions draw from the global generator unless given one", PRB)],
  ["table of trial results", "global generator state"],
  "Seeded search over simulated pools; threads sharing the global generator are outside the property."),
P("C13", "Random streams are isolated",
  "Drawing from a distribution with an explicit seed or generator depends on that seed or generator only and leaves the global generator untouched; a frozen distribution created with a seed produces one reproducible stream of its own, however it is interleaved with others. Drawing without one depends on the global generator only, and estimators that are deterministic (every fit given its start, every query, every density) consume no random numbers at all.",
  ["schedules", "histories", "configurations"],
  "Complex and real normal and t distributions, module-level and frozen, seeds as integers, RandomState or Generator objects; interleavings with other streams, fits, densities and threads; faults during a draw.",
  "The tests draw without seeds and look at shapes only.",
  [PRB, COV, STR, GEN],
  [("random_state and seed passed on to scipy", PRB + ": rvs, __call__, __init__")],
  ["samples", "global generator state before and after"],
  "Seeded search over interleaved programs against independent reference streams."),
P("C14", "Gradient-based estimation survives clock faults and keeps its promises",
  "The gradient-based estimators terminate under every behaviour of the clock, and return a positive definite estimate, normalised as asked, whose cost is not above that of the starting point, even when the time limit strikes early. When the clock behaves, or jumps without reaching the time limit, the result does not depend on the clock, and agrees with the fixed-point solution of the same problem (Tyler) or is a stationary point of the likelihood (Kronecker Student-t).",
  ["fault_sequences", "inputs"],
  "Clock jumps forwards and backwards at any clock read, stalls, any start and data scale; Tyler real and complex, Kronecker Student-t.",
  "The tests run under the real clock, from one start.",
  [COV, STR, CST, MAN],
  [("solver limits", COV + ": tyler_shape_matrix_naturalgradient; " + STR + ": _estimate_covariance_kronecker_t_gradient"), ("cost rejecting overflow", COV + ": _generate_realTyler_cost_function")],
  ["estimate, cost, termination in bounded simulated time"],
  "Seeded search over clock faults; agreement to the solver's tolerance."),
P("C15", "Progress output and logging never change a result",
  "Verbose or not, whatever the log level, log handlers, output stream and clock (short of a solver's time limit), an estimation returns the same result. If the stream or a handler fails, the estimation either returns that same result or raises that failure with the previously learned state intact; an online fit then keeps the samples applied so far, each applied whole.",
  ["fault_sequences", "configurations"],
  "Every estimator that shows progress, online and batch; streams that are closed, full, broken or slow at any write; failing handlers; clocks that jump.",
  "The tests run with output off or with a working terminal.",
  [VRB, COV, STR, ONL],
  [("progress bars around the loops", COV + ": *_fixed_point"), ("progress bar writing to the log", VRB + ": logging_tqdm")],
  ["learned attributes with and without output", "exceptions"],
  "Seeded search over output configurations and stream faults."),
P("C16", "Online estimation processes a stream exactly, however it is cut",
  "Feeding a stream to the online estimator in one fit, in single updates, or in any mixture gives the same estimate after every sample: the k-th update moves from the current estimate along the user's gradient by the initial step divided by k, or by the constant step when asked, using the user's manifold. The covariance and precision always correspond to the current estimate, a new fit restarts the sequence, setting the estimate does not, and with the package's own manifolds the estimate stays on the manifold throughout.",
  ["histories", "schedules", "inputs"],
  "Streams of up to 60 samples cut in any way, single matrices, lists and tuples of matrices, user manifolds and the package's manifolds, both step rules, lost, duplicated and late samples.",
  "The tests fit one stream once.",
  [ONL, MAN],
  [("one update per sample, step from a counter", ONL + ": update, fit, _current_lr"), ("retractions", MAN)],
  ["estimate_, covariance_, precision_ after every sample"],
  "Seeded search against a reference recursion.",
  [("_iteration", "number of updates since the start", ONL)]),
P("C17", "An online update happens entirely or not at all",
  "If the user's gradient, manifold or conversion, or anything inside the update, fails or is interrupted, the estimate, covariance, precision and step counter are all those before the update, so that retrying it gives the stream without the fault. A stream with any pattern of failures and retries ends with exactly the estimate of the fault-free stream: every sample is applied exactly once.",
  ["fault_sequences", "crash_points"],
  "Failures of every callback and every library call of an update, repeatedly, in fits and single updates, for single and composite estimates.",
  "No test makes an update fail.",
  [ONL, BASE],
  [("new state computed before it is stored", ONL + ": update, set_estimate")],
  ["estimate_, covariance_, precision_ and later step sizes"],
  "Seeded search over fault places; interrupts are placed on library calls."),
P("C18", "A feature array is the sequence of what was appended to it",
  "After any sequence of appends, reads, slices, exports and vectorisations - accepted or failing, growing through any capacity - the array holds exactly the appended items in order, each component in step with the others: a failed append adds nothing, a refused one changes nothing. Slices and exports show the items asked for, and neither later appends nor writes to a slice change an earlier slice or the source.",
  ["histories", "fault_sequences"],
  "Arrays of one to three components, shapes of rank 0 to 3, appends of single items, batches and other feature arrays, more than 1000 items, faults at any library call, bad appends of every kind.",
  "The tests append a few items to one array.",
  [BASE],
  [("check everything, then store, then count", BASE + ": _FeatureArray.append"), ("capacity growth", BASE + ": _FeatureArray.append")],
  ["len, items, slices, export, vectorize, shape, dtype"],
  "Seeded search over histories against a list model.",
  [("_len", "number of items", BASE), ("_array", "storage with spare capacity", BASE)]),
P("C19", "Faulty sample channels are tolerated as robust estimation promises",
  "Samples delivered in another order or all of them repeatedly, and for the scale-free estimators with any gain per sample, give the same estimate; a single corrupted sample, however large, has bounded influence on the Huber, Student-t and Tyler estimates; the empirical and fixed-point estimators follow an invertible linear change of the sensors (one of the assumed structure for the Kronecker model). Samples that are not finite are refused with an error, and the previously learned state remains; a sample that is all zero never makes an estimate non-finite.",
  ["fault_sequences", "inputs"],
  "Reordered, duplicated, amplified, attenuated, corrupted, mixed and non-finite samples at any place of the data, for every estimator.",
  "The tests use clean data.",
  [COV, STR, BASE],
  [("weights bounded in the sample's size", COV + ": *_fixed_point"), ("validation of samples", BASE + ": _validate_data")],
  ["estimates with and without the channel faults", "exceptions and state"],
  "Seeded search over channel faults; invariances checked to rounding at converged estimates."),
P("C20", "Optimisation on the package's manifolds keeps its points on the manifold",
  "Along any path of steps, transports, changes of units and random restarts on the package's manifolds, points stay positive (Hermitian positive definite, of unit determinant where the manifold asks for it) and tangent vectors stay tangent, even after the step sizes have been disturbed. Exponentials follow the geodesics of the metric and retractions agree with them to first order; moving by the logarithm reaches its target, its length is the distance, transport keeps lengths and angles, gradients represent the differential in the metric, and stacks and products act componentwise with their weights. A solver run on them visits only such points, gets closer to its target, and passes on a failure of its cost.",
  ["histories", "inputs"],
  "Walks of up to 40 steps by exponential or retraction on positive vectors, Hermitian positive definite, special Hermitian positive definite, product and Kronecker manifolds, stacks of matrices included, with steps disturbed in size and by non-tangent noise, and solver runs whose cost fails.",
  "The tests check the inner product, one exponential and one retraction of the Kronecker manifold.",
  [MAN, LIN],
  [("exponential, logarithm, retraction, transport", MAN)],
  ["points and tangent vectors after every step"],
  "Seeded search over walks with perturbed steps against geometric identities."),
P("C21", "One object can be read by many threads at once",
  "Threads that query one shared fitted estimator, online estimator, distribution, feature array, transformer or manifold (its precision, distances, scores, error norms, transforms, densities, slices, exports, vectorisations, printed form, copies and pickles) each get the answers a lone caller gets, under every interleaving. The shared object's learned state and parameters stay as they were, also when a query fails or is interrupted half-way, and no query waits for ever for another one.",
  ["schedules", "crash_points"],
  "Objects of every kind of the package, one or two shared by 2 to 4 threads with histories of queries, pre-empted at line granularity, with memory failures and interrupts at any call of a query.",
  "No test uses threads.",
  [COV, BASE, ONL, PRB, MAN],
  [("queries compute from learned state without changing it", BASE + ": ComplexEmpiricalCovariance, _FeatureArray"), ("precision computed when the fit stores none", BASE + ": get_precision, mahalanobis, error_norm")],
  ["answers of every query", "learned state and parameters of the shared objects after every query"],
  "Seeded search over queries and thread schedules."),
P("C22", "The program's settings are neither changed nor in the way",
  "Whatever the process-wide settings of the program are (floating-point error handling, warning filters, logging, print options, scikit-learn and joblib defaults, locale, working directory, garbage collection, signal handlers), an operation of the package returns what it returns under the default settings or, where a setting turns a condition into an error, raises that error; a fit that ends so leaves what was learned before. After any operation, successful, failing or interrupted, these settings, the threads, open files, environment, log handlers and the libraries used are what they were before; user functions called back from inside see the program's own settings.",
  ["configurations", "fault_sequences", "inputs"],
  "Histories of fits, failing fits, queries, online updates, batches, densities, sampling, manifold operations and helpers under drawn settings, on ordinary and degenerate data, with memory failures, failing decompositions and interrupts at any call.",
  "The tests run under the default settings and look at return values only.",
  [COV, STR, BASE, ONL, PRB, MON, VRB, MAN, LIN],
  [("module loggers only", COV + ": LOGGER"), ("random state restored on every path", MON + ": temp_seed")],
  ["results under the settings", "settings, threads, files, handlers, library attributes before and after", "settings seen by user functions"],
  "Seeded search over settings, operations and faults."),
P("C23", "Queries answer for the last completed fit, with the parameters in effect",
  "Whatever an estimator went through (fits of other data, fits that failed or were interrupted, changes of parameters, copies, pickles, other objects of its class, queries that failed), its precision is the inverse of the covariance its last completed fit learned, its transform that covariance, its error norms the norms of the difference from it, and its scores and distances the likelihoods and distances under it, for real and complex data, all options and test sets in new or reused arrays.",
  ["histories", "crash_points", "inputs"],
  "Histories of up to 29 operations on every estimator and online estimators, with bad data, memory failures and interrupts at any call of a fit or query between the queries.",
  "The tests ask a few queries of one fresh fit and check signs or types.",
  [BASE, COV, STR, ONL],
  [("covariance and precision set together", BASE + ": _set_covariance"), ("norms and likelihoods computed from learned state", BASE + ": error_norm; " + COV + ": score")],
  ["answers of precision, transform, error_norm, mahalanobis, score"],
  "Seeded search over histories with faults; closed forms on what a process without history learns."),
P("C30", "Real and complex representations convert without loss",
  "Converting complex vectors and covariances to their real representation and back returns the original.",
  ["inputs"], "All vectors and Hermitian matrices.",
  "The tests convert a few random matrices.",
  [MAP], [("mappings", MAP)], ["return values"], ""),
P("C31", "Densities equal their closed forms",
  "The complex normal and t densities equal their published closed forms.",
  ["inputs"], "All parameters and points.",
  "The tests compare a few points with scipy.",
  [PRB], [("real equivalents", PRB)], ["return values"], ""),
P("C32", "Data generators follow their stated distribution",
  "The data generators produce samples whose law is the one they name.",
  ["inputs"], "All parameters; a statement about distributions.",
  "The tests look at shapes.",
  [GEN], [("generators", GEN)], ["samples"], ""),
]

NA = {
    "C30": "Pure functions of their argument: no schedule, clock, I/O, randomness or failure for a simulator to decide (their use inside estimators is covered by C09 and C14).",
    "C31": "Pure functions of their arguments: nothing for a simulator to schedule or fault.",
    "C32": "A statement about a probability law, decided by statistics, not by schedules or faults; which stream is consumed is covered by C12 and C13.",
}


def main():
    claimed, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            built = os.path.exists(os.path.join(HERE, "vsim", "props", p["id"].lower() + ".py"))
            if p["id"] in NA:
                na.append({"property": p["id"], "reason": NA[p["id"]]})
            elif built:
                claimed.append(p)
            else:
                continue
            anchors = {"files": p["files"],
                       "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w}
                                    for n, m, w in p["state"]]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    man = {"version": 1, "setup_cmd": "./run.py --help",
           "checks": [{
               "property": p["id"],
               "quick_cmd": "./run.py check %s --tier quick" % p["id"],
               "thorough_cmd": "./run.py check %s --tier thorough" % p["id"],
               "technique": TECH, "level": "exploration",
               "level_note": p["note"] + " Real robuststats code; trusts numpy, scipy and the simulator in vsim/."}
               for p in claimed],
           "not_applicable": na,
           "notes": "No hooks in /repo: the seams are sys.monitoring events, joblib's backend registry, time functions and fork. Findings and repairs: known_findings.json. Replay: ./run.py replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
