# One entry per property: which harness decides it, and how its evidence is described.
MC_ASSUME = ["sequentially consistent interleavings only (no weak-memory reorderings); data races are detected by vector clocks on every schedule and reported as violations",
             "deviation bound as reported in coverage.bounds: a deviation is any choice other than 'keep running the current thread, round robin when it blocks or polls'",
             "code inside libstdc++.so is atomic; sleeping/yielding threads are resumed when another thread changed shared state"]
def mc(n): return dict(engine="mc", src=[f"{n}.cpp"], level="model_checking", assumptions=MC_ASSUME)
def seq(n, level, rule, **kw): return dict(dict(engine="seq", src=[f"{n}.cpp"], level=level, rule=rule, assumptions=["std::random_device is replaced by a fixed sequence", "compiled with AddressSanitizer and libstdc++ assertions; a crash, an escaping exception, a process exit or a call that does not return is a violation"]), **kw)
SPECS = {
    "C01": mc("c01"), "C02": mc("c02"), "C03": mc("c03"), "C04": mc("c04"), "C05": mc("c05"),
    "C06": seq("c06", "model_checking", "states = distinct observable dataset states reached, transitions = operations applied and compared with the reference model; every operation sequence within the depth bound is executed on the real code"),
    "C07": seq("c07", "exploration", "one case per dataset x way of copying or deriving x mutation, each also preceded by every other mutation, checked on both sides"),
    "C08": seq("c08", "exploration", "one evaluation per dataset, all part counts and flags inside; distinct_nontrivial counts distinct (dataset, k, flags, seed)"),
    "C09": seq("c09", "exploration", "one evaluation per dataset shape and feature subset, all name orders and call variants inside"),
    "C10": seq("c10", "exploration", "one evaluation per written dataset or hand made file"),
    "C11": seq("c11", "exploration", "one evaluation per dataset, all neighbour counts, seeds and sample sizes inside; distinct_nontrivial counts distinct (dataset, parameters)"),
    "C15": seq("c15", "exploration", "one evaluation per dataset, all k, queries and distance tables inside; distinct_nontrivial counts distinct (dataset, k, metric)"),
    "C12": seq("c12", "model_checking", "transitions = executions of an operation; every operation is repeated after every other operation (same and other seeds, other datasets, unseeded), states = distinct results"),
    "C13": seq("c13", "exploration", "one evaluation per dataset, all fold counts, flags, seeds and sets of mispredicted points inside"),
    "C14": seq("c14", "exploration", "one evaluation per label sequence, all prediction sequences and choices of positive classes inside"),
    "C16": seq("c16", "exploration", "one evaluation per dataset, all k, queries, rates and predictions inside; distinct_nontrivial counts distinct (dataset, parameters)"),
    "C17": seq("c17", "exploration", "one evaluation per dataset, all the algorithms, parameters, retrainings, copies and queries inside; distinct_nontrivial counts distinct (dataset, algorithm)"),
    "C18": seq("c18", "exploration", "one evaluation per dataset, all kernels, retrainings, copies and queries inside; distinct_nontrivial counts distinct datasets"),
    "C23": seq("c23", "exploration", "one evaluation per dataset, all kernels, parameters, multipliers and histories of computations inside; distinct_nontrivial counts distinct datasets"),
    "C24": seq("c24", "exploration", "one evaluation per point (or size), all second operands and expressions inside; distinct_nontrivial counts distinct points"),
    "C25": seq("c25", "exploration", "one evaluation per point (or size), all second points and the 38 measures inside; distinct_nontrivial counts distinct points"),
    "C26": seq("c26", "exploration", "one evaluation per range of numbers or prefix of texts, all its numbers or texts inside; distinct_nontrivial counts distinct ranges"),
    "C27": seq("c27", "exploration", "one evaluation per prefix of a history of operations, all its continuations inside; states counts distinct contents"),
    "C28": seq("c28", "exploration", "one evaluation per values of a point or dataset, all labels and ignored features inside; distinct_nontrivial counts distinct values"),
    "C29": seq("c29", "exploration", "one evaluation per generator, size, number of classes and seed, all other parameters inside; distinct_nontrivial counts distinct parameters"),
    "C19": seq("c19", "exploration", "one evaluation per label sequence or dataset, all answers of the learners, retrainings and other data inside; distinct_nontrivial counts distinct datasets"),
    "C20": seq("c20", "exploration", "one evaluation per number of members, classes and points, all answers of the members and weights inside; distinct_nontrivial counts distinct parameters"),
    "C21": seq("c21", "exploration", "one evaluation per dataset, all numbers of clusters, initialisations, seeds and distance measures inside; distinct_nontrivial counts distinct datasets"),
    "C32": seq("c32", "exploration", "one evaluation per dataset, the algorithms, norms, retrainings, copies and other data inside; distinct_nontrivial counts distinct datasets"),
    "C22": seq("c22", "exploration", "one evaluation per dataset or order of weights, all labels, numbers of features, jumps and failing trainings inside; distinct_nontrivial counts distinct datasets"),
    "C30": seq("c30", "model_checking", "transitions = operations applied to the heap or hash and compared with the reference model after each; evaluations counts prefixes of histories"),
    "C31": seq("c31", "model_checking", "transitions = questions (class, raw value, batch) put to a trained model in all sequences; each compared with a model asked nothing before"),
    "C33": seq("c33", "model_checking", "transitions = trainings, each cut by one limit at one point of the execution under a virtual clock; states = models they end in"),
    "C34": seq("c34", "exploration", "one evaluation per dataset, all numbers of subspaces, features and weights inside; distinct_nontrivial counts distinct datasets"),
    "C35": seq("c35", "model_checking", "transitions = plots asked for, in all sequences of calls of the history part; states = datasets and session states plotted; distinct_nontrivial counts distinct plots", parts=("visual",)),
    "C36": seq("c36", "exploration", "one evaluation per dataset or order of weights, all labels, goals, sorting criteria, look aheads and failing trainings inside; every search is repeated on the same object; distinct_nontrivial counts distinct datasets", san=False, opt="-O2", assumptions=["std::random_device is replaced by a fixed sequence", "compiled with libstdc++ assertions but without AddressSanitizer (each search allocates a table of 129 MB; C22 runs some searches under AddressSanitizer)"]),
    "C37": seq("c37", "exploration", "one evaluation per dataset or table, all learners, verbosities, folds and goals inside; distinct_nontrivial counts distinct datasets and texts; counters: numbers read from what was printed"),
    "C38": seq("c38", "exploration", "one evaluation per labeled dataset, all starting solutions and learners inside; distinct_nontrivial counts distinct datasets; counters: trainings, evaluations"),
}
