O = dict(
C01="Harness programs (submit from main / tasks / two threads, wait, pause, unpause, reset, destroy) run under the controlled scheduler of `mc/`; the oracle is the set of effects of the tasks (each plain write is also a race detector probe), the counters at rest, and the absence of deadlock, livelock and data race on every schedule.",
C02="Tasks returning values, nothing, or throwing, through `submit`; the oracle checks readiness only after completion, the value or the exact exception type and text, survival of the pool and of later tasks.",
C03="`parallelize_loop` over ranges of many integer types; the body records its blocks and the oracle checks disjointness, coverage, number of blocks and that nothing is pending when the call returns. Ranges too long to enumerate are checked on their blocks only.",
C04="The distance matrix is computed under the scheduler for every order of the points and compared entry by entry with a sequential double loop; the dataset is compared before and after, races are detected.",
C05="Threads print through a stream buffer that yields between characters, so that any two writes can be interleaved; the oracle parses the output.",
C06="A plain list of (features, label, id) is the reference model of a dataset. Every sequence of operations is applied to both; after each operation all accessors (size, points, labels, features, index, classes, names, distribution, feature names, types) are compared.",
C07="Every way to copy or derive, followed by every mutation of either side; the oracle is a full snapshot of the other side (all accessors), before and after.",
C08="Multiset of points, ids, sizes and sizes per class of the parts computed from their definition; parts pass the full bookkeeping check of C06; the source is snapshotted.",
C09="The projection computed column by column from the original values by name; normalisation computed from its formula.",
C10="Files are written by the harness from a table (csv, data, arff, txt, regression csv; class texts, blanks, exponents), the oracle is the table; written datasets are loaded back.",
C11="Synthetic points are solved for the segment (minority point, one of its k nearest minority neighbours; ties in any way) they lie on, with a matching over all of them; samplings are compared with the source as multisets and with the shares of the classes.",
C12="Results of an operation in a fresh state are the reference for its result after every other operation (and pairs of them, with other seeds, datasets and unseeded, with other entropy from the replaced `std::random_device`).",
C13="Folds are recomputed as multisets. A recording classifier notes what it is trained and tested on and mispredicts a chosen set of points, from which the error is computed independently.",
C14="A stub model returns an enumerated prediction sequence; matrix, counts and ratios are computed from the two sequences directly; printed reports are parsed.",
C15="All distances are sorted independently; every choice among points tied at the k-th distance is admitted; full and triangular tables and direct evaluation are compared with it.",
C16="As C15 for means; LMS is compared with the linear function of the reported solution, exact targets with their coefficients; errors with the two line formula.",
C17="Separability is decided by an exact small linear program (margin of enumerated separating lines / kernel feature maps); sides, margins and answers are recomputed from the reported solution.",
C18="In one and two dimensions the maximum margin comes from the distance of the convex hulls (all segments); in all kernels the optimality conditions are checked on the multipliers, and norm, margin, support vectors and weights recomputed.",
C19="Recording learners give enumerated answers; votes and largest values are counted independently; training sets are compared with those of the definition.",
C20="Recording members give enumerated answers; votes, weights (SAMME) and probabilities are recomputed.",
C21="Nearest centers and means are recomputed from the reported centers, members and assignments for every distance measure.",
C22="Scores are recomputed from their formula, the removal order of RFE is simulated from the weights of a stub learner (with failing trainings), the result must be the projection on the predicted features.",
C23="Kernel values, norms and weights are computed from the formula for all pairs and compared with every way of reading them, after every sequence of two computations.",
C24="Expressions are evaluated element by element with plain doubles; operands are compared before and after.",
C25="Every measure is implemented a second time from its literature definition; identity, sign, symmetry and triangle inequality are checked besides.",
C26="`std::to_string`, `strtod` and `snprintf` are the reference.",
C27="A `std::vector` with the same operations.",
C28="Two pass formulas computed on plain vectors.",
C29="Structure checks on the generated points (arms, centers, coefficients, noise bounds), labels and shapes.",
C30="A `std::multiset` by value for the heap and a `std::map` by feature set for the hash, compared after every operation.",
C31="A model trained in the same way but asked nothing before gives the reference answer of each question; samples, solution and arguments are snapshotted.",
C32="As C17 with the largest margins computed by enumeration; reported norm and margin are recomputed from the solution.",
C33="Time comes from a virtual clock that advances at every reading, so a time limit can cut training at every reading of the clock; the other limits are enumerated. The oracle: bounds on counters, success only if separated, answers by the reported solution, samples unchanged, retraining succeeds.",
C34="Correlations and diversities are recomputed, each round's choice must be one with the largest score; ties are admitted in any way.",
C35="`popen` is replaced by a stand-in that records what gnuplot is sent (nothing is started), and the process runs as an unprivileged user inside of its scratch directory, as the code deletes folders. The script returned is parsed (settings, functions, plotted files with columns and titles), the files are read as gnuplot would read them, and compared with the dataset; functions are evaluated on a grid and compared with the hyperplane; the learner of a decision surface is a stub.",
C36="The learner answers the true maximum margin: the shortest vector between the convex hulls, found by trying every set of support points. The oracle computes it for every subset of the features and takes the best of the size asked for; for a breadth of one every criterion is recomputed step by step (orders with ties are left out). Built without AddressSanitizer, as every search allocates 129 MB; some searches run under it in C22.",
C37="The standard streams are captured at full precision while the real code runs, and the numbers following the texts are compared with what the objects answer afterwards (solutions, steps, reports, features); for cross validation and selection stub classifiers with known mistakes, margins and support vectors say what must be printed. Each run is repeated with verbosity 0 to 3 and solutions, answers and results must be equal.",
C38="Separability is decided by enumerating integer normals; margins, norms and values are recomputed from the reported weights or multipliers. Whether the given solution already separates is computed directly, and then it must come back unchanged after no update. All starts from the stated grid are run on the real learners.",
)
