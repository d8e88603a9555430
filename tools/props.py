CORE = "subprojects/ufjfmltk-core/include/ufjfmltk/core/"
CLS = "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
ENS = "subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"
FS = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
REG = "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/"
CLU = "subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/"
VAL = "subprojects/ufjfmltk-valid/include/ufjfmltk/valid/"
SRC = "subprojects/ufjfmltk-core/src/"
PROPS = []
def P(id, title, statement, over, forall, tests, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))
MCT = "stateless model checking of the implementation: deviation-bounded exhaustive schedule exploration with race detection"
MCN = "Every schedule of each small harness with at most the reported number of deviations (2 to 4) from the default scheduler is executed on the real code; assumes sequentially consistent interleavings (data races are themselves violations) and trusts the scheduler/race detector in mc/."
SEQN = "Every case of the stated bounded space is executed on the real code and compared with an independent reference; nothing is claimed outside of the bounds. Trusts the reference model and the compiler."
NOT_APPLICABLE = []

P("C01", "Thread pool runs every task exactly once; wait, pause, reset, destroy keep faith",
  "Every task handed to the thread pool, including by other tasks and by several threads at once, is executed exactly once, and when waiting for tasks or destruction returns every task submitted before it has completed and its effects are visible to the caller. After a wait returns on a paused pool no task is running and none starts until it is unpaused; resetting to another thread count keeps queued tasks and the paused flag, and destroying a paused pool drops what is queued without running it. At rest the queued, running and total counts equal the true ones, and no schedule deadlocks, livelocks or races.",
  ["schedules", "histories"], "All interleavings of the submitting, waiting and worker threads, for pools of 1 to 4 threads and any number of tasks.",
  "The repository has no test of the pool at all; a test runs one schedule, and losing or doubling a task needs a particular preemption between the checks and the queue operations.",
  [CORE + "ThreadPool.hpp"], [("push_task / pop_task under the queue mutex; tasks_total", CORE + "ThreadPool.hpp"), ("wait_for_tasks, reset, destructor", CORE + "ThreadPool.hpp"), ("worker loop and the paused/running flags", CORE + "ThreadPool.hpp")],
  MCT, MCN, ["effects of the tasks", "get_tasks_queued/running/total"])
P("C02", "A submitted task's future delivers exactly its value or exception",
  "The future returned for a submitted task becomes ready only after the task finished, in every schedule, and yields exactly the value it returned (true for tasks without a value) or rethrows exactly the exception it threw. A throwing task neither ends the pool nor affects other tasks, arguments are those at the time of submission, and futures stay valid and correct when dropped, shared, or read after the pool is reset or destroyed.",
  ["schedules"], "All interleavings of submitter, worker and waiting threads for 1 to 3 workers, returning, void and throwing tasks.",
  "Nothing in the tests submits a task with a result; exception delivery racing with the reader needs controlled schedules.",
  [CORE + "ThreadPool.hpp"], [("submit: shared promise, catch and set_exception", CORE + "ThreadPool.hpp")], MCT, MCN, ["std::future"])
P("C03", "Parallel loops cover the whole index range exactly once before returning",
  "Running a loop over an index range on the pool calls the body on disjoint, non-empty blocks that cover every index between the two bounds exactly once, whichever bound is larger and whatever integer types are used. The number of blocks is the requested one (default: the thread count), or the range length when that is smaller, and the call returns only after every block has completed, also while other tasks or loops share the pool.",
  ["schedules", "inputs"], "All ranges, block counts and thread counts in the bounds, each under all interleavings within the deviation bound.",
  "Tests only reach the loop through one distance matrix; remainders, reversed, empty and extreme ranges and early return are never exercised.",
  [CORE + "ThreadPool.hpp"], [("parallelize_loop: block arithmetic, blocks_running", CORE + "ThreadPool.hpp")], MCT, MCN, ["indices passed to the loop body"])
P("C04", "Parallel distance matrix equals sequential pairwise distances",
  "For every dataset whose point ids are a permutation of 1..n, the precomputed distance matrix holds in row a, column b the distance between the points with ids a and b, with zero on the diagonal, for every order of the points and every thread count. The triangular variant stores, in row a, exactly the columns up to a with the same values. Computing it is free of data races and leaves the dataset unchanged.",
  ["schedules", "inputs"], "All point orders of up to 4 points (several up to 24, and sizes up to 300), 1 to 8 threads, full and triangular, under all interleavings within the deviation bound.",
  "The only test uses points in id order and checks classification accuracy, so a wrong or racy entry does not show.",
  [CORE + "DistanceMatrix.hpp", CORE + "ThreadPool.hpp"], [("compute(): one task per block of rows", CORE + "DistanceMatrix.hpp")], MCT, MCN, ["entries of the matrix"])
P("C05", "Synchronized stream output is never interleaved",
  "What one print call writes to a synchronized stream appears contiguously and exactly once in the output, for any number of concurrent writers, and a line-printing call always ends its items with a single newline in the same atomic step.",
  ["schedules"], "All interleavings of 2 to 3 threads printing 1 to 2 multi-item lines.",
  "No test prints from two threads; interleaving within a line needs a preemption between two items.",
  [CORE + "ThreadPool.hpp"], [("print/println under the stream mutex", CORE + "ThreadPool.hpp")], MCT, MCN, ["characters received by the stream buffer"])
SQT = "explicit-state model checking of the implementation: exhaustive enumeration of operation sequences within bounds, compared with a reference model after every step"
INT = "bounded-exhaustive model checking of the implementation: systematic enumeration of every input and call combination within bounds on the real code, compared with an independent reference"
DAT = [CORE + "Data.hpp"]
P("C06", "A dataset's size, classes, distribution, index and ids always fit its points",
  "After any sequence of inserting, removing, relabelling, joining, shuffling, clearing, restricting to classes, recounting the classes and assigning, the dataset holds exactly the points these operations imply, in order, with untouched features, labels and ids (an inserted point gets the new size as id unless it keeps its own, removal goes by id), and every operation reports whether it was done. The size, emptiness, labels and feature columns agree with the points, the index is a permutation of the positions which keeps its relative order when a point is removed, and the feature names stay those of the dataset. For classification data the classes are distinct and include every label, and class names and class distribution are aligned with them, the distribution counting exactly the points of each class; operations on absent ids, positions or points of another dimension change nothing, and removals always leave one point.",
  ["histories", "inputs"], "All sequences of 26 operations up to depth 3 (4 from two of the 9 initial datasets; thorough: 4 and 5), every removal position for sizes up to 24, every subset removal up to 6 points.",
  "Tests run a few fixed calls on one loaded file; the bookkeeping breaks for particular orders (remove after shuffle, new class by relabelling, join after load).",
  DAT, [("insertPoint, removePoint(s), updatePointValue, join, setClasses, shuffle, clear", CORE + "Data.hpp")], SQT, SEQN, ["Data accessors"])
P("C07", "Copies and derived datasets are deep and isolated",
  "Copying a dataset in any way (construction, assignment, copy calls, by value, in containers or train/test pairs) gives a dataset equal in every observable respect which behaves the same under later operations, and no later change to either side is visible in the other. Parts derived from a dataset - class or sample splits, folds, samplings, feature projections, joins, points inserted from another dataset - own their points: deriving them leaves the source unchanged, and changing the source or one part never changes another.",
  ["inputs", "histories"], "10 datasets x 11 ways to copy x 22 mutations (alone and after each other mutation) on either side, and 16 derivations (whose points are compared with the source) x 22 mutations on either side.",
  "Tests compare sizes of copies; sharing of points only shows when one side is changed through one particular call and the other is inspected.",
  DAT + [VAL + "Validation.hpp", CORE + "Sampling.hpp"], [("copy, copy constructor, operator=, classesCopy, join, insertPoint, splits", CORE + "Data.hpp")], SQT, SEQN, ["Data accessors of both sides"])
P("C08", "Splitting a dataset partitions it evenly, per class when stratified",
  "Splitting a dataset into k samples gives k datasets which together contain every point exactly once and unchanged (except for ids when renumbering is asked for: then 1..m in each part), whose sizes differ by at most one; stratified splits of classification data also differ by at most one in each class. Splitting by classes gives one dataset per class, in the order of the classes, with that class's points in their order. Each part has consistent bookkeeping, kind and feature names, the source is unchanged, and a non-zero seed determines the result.",
  ["inputs"], "All label sequences of up to 5 points over 3 classes in 3 variants (thorough: 7), sizes up to 64 (thorough: 200) in 6 class patterns, up to 300 classes with similar or extreme labels, k up to size+2 or 16, all flags, 3 seeds.",
  "Tests split one balanced file of 150 points into 3 or 10 folds; remainders, more classes than parts, and sizes below k are never seen.",
  DAT, [("splitSample, splitByClasses", CORE + "Data.hpp")], INT, SEQN, ["the parts"])
P("C09", "Selecting, inserting and removing features projects every point exactly",
  "Selecting or removing features by name, in any order and also with absent or repeated names to remove, yields for every point exactly the values of the remaining features in their order, keeping labels, ids, count and order of the points and the names of the remaining features. The calls returning a new dataset leave the source unchanged; successive removals compose, and the last feature is never removed. Normalizing appends one coordinate with its name and scales every point to a unit vector of the chosen norm in the direction of the point extended by one.",
  ["inputs"], "Every subset of the features of datasets up to dimension 6 (thorough: 8) with 3 naming schemes, single, prefix, suffix and complement sets up to dimension 64, every removal order of 4 features.",
  "Tests check two columns of one dataset and the dimension after one removal.",
  DAT, [("selectFeatures, insertFeatures, removeFeatures, normalize", CORE + "Data.hpp")], INT, SEQN, ["projected datasets"])
P("C10", "Loading returns what a file says; written datasets load back equal",
  "Loading a csv, data or arff classification file gives one point per row with the row's values, ids 1..n, and one label per class text, the same wherever it appears and different for different classes; classes, names and distribution are in order of appearance (integer classes keep their value, the data format's feature names are kept), a regression csv file its targets, and a txt file its rows without labels. A classification dataset with integer labels and values of up to six significant digits written as csv or data loads back with the same points, labels, dimension and (data format) feature names, as does a regression dataset written as csv. Loading over existing content equals loading into a new dataset, writing does not change the dataset, and files that are missing, ragged or of unknown type are refused.",
  ["inputs"], "All value pairs over 14 representative numbers, all label sequences up to 4 rows over 6 labels, sizes to 40 and dimensions to 40, and 11 file layouts (class at either end, separators, blanks, carriage returns, missing last newline) x 11 class alphabets x all row sequences up to 4; regression csv files over 6 targets, txt files to 5 x 4; all sequences of up to 5 (6) row lengths out of 3 in 6 formats.",
  "Tests load fixed files and only check sizes and distributions; values, exponents, label order effects and reloading are not compared.",
  DAT + [SRC + "Utils.cpp"], [("load_csv, load_data, load_arff, process_class, write", CORE + "Data.hpp"), ("atod, is_number", SRC + "Utils.cpp")], INT, SEQN, ["loaded dataset"])
P("C11", "Over-sampling adds interpolated minority points; sampling keeps class shares",
  "SMOTE leaves the existing points of a dataset untouched and appends, for every minority point and each of its k nearest minority neighbours, exactly one point of the minority class which lies on the segment between the two; borderline SMOTE does so for the points in danger. Sampling s points takes from each class its share up to rounding and at least one, unchanged except for renumbered ids and, without replacement, none twice. The source of a sampling is unchanged, bookkeeping is consistent, and a non-zero seed determines the result.",
  ["inputs"], "All label sequences of up to 6 points (thorough: 8) in 4 layouts, 4 neighbour counts, 3 seeds, 5 borderline widths, all sample sizes with and without replacement; sizes up to 48 / 100 (thorough: 120 / 300) in 6 class patterns.",
  "The tests only compare the number of points before and after; that a synthetic point is on no valid segment, or that existing points move, does not change the counts.",
  [CORE + "Sampling.hpp"] + DAT, [("SMOTE and BorderlineSMOTEOne", CORE + "Sampling.hpp"), ("sampling", CORE + "Data.hpp")], INT, SEQN, ["resulting datasets"])
P("C15", "kNN answers the majority class of the k nearest points, by every route",
  "The kNN classifier answers a most frequent class (the first one listed on equal votes) among the min(k, n) points nearest to the query in its metric, for every dataset, order of the points and k, ties at the k-th distance being broken in any way, and the reported probability is the smoothed frequency of that class. Answers from precomputed full or triangular distance tables, for points of the dataset with ids 1..n, are those of the definition too, and training or evaluating never changes the dataset.",
  ["inputs"], "All label sequences of up to 5 points (thorough: 6) in 3 layouts with ties and duplicates, every k, 45 queries and all points, 2 metrics, full and triangular tables; sizes up to 40 (thorough: 80).",
  "One test checks the accuracy of one k on one file; distance ties, triangular tables, shuffled ids and k beyond the size change few answers on it.",
  [CLS + "KNNClassifier.hpp", CORE + "DistanceMatrix.hpp"], [("evaluate, precomputeDistances, setPrecomputedDistances", CLS + "KNNClassifier.hpp")], INT, SEQN, ["evaluate", "getPredictionProbability"])
P("C12", "A non-zero seed determines every random operation, whatever was done before",
  "An operation given a non-zero seed - shuffling, splitting, sampling, folding, cross validating, over-sampling, generating datasets, drawing random points and numbers, random subspaces, KMeans, balanced perceptrons and bagging - produces the same result from the same inputs every time, whatever seeded or unseeded random operations ran before it in the process, and whether the seed is given at construction or later. Shuffling only permutes the points and can reach every order; random numbers stay in the requested range, and a random subspace has the requested share of features, all different.",
  ["histories", "inputs"], "All ordered pairs of 20 operations x 5 seeds (also above 16 and near 32 bits) x 3 datasets (A, B, A again), every pair preceded by a third operation for the users of the shared generator, all unseeded operations in between with other entropy.",
  "Tests run each seeded operation once; leakage through the shared generator needs a particular operation before it with a particular seed.",
  [SRC + "Random.cpp", CORE + "Random.hpp"] + DAT + [CORE + "Sampling.hpp", SRC + "Datasets.cpp", CORE + "Point.hpp", CLU + "KMeans.hpp", ENS + "BaggingClassifier.hpp"], [("random::init, seed_param and the shared m_generator", SRC + "Random.cpp"), ("generators local to each seeded operation", CORE + "Data.hpp")], SQT, SEQN, ["results of the operations"])
P("C13", "Cross validation tests each point once on models trained without it",
  "Splitting into k folds (2 <= k <= size) gives, for every execution, k train/test pairs numbered in order whose test parts partition the dataset evenly (per class when stratified) and whose training parts are exactly the other points; the hold-out split is such a pair with one k-th of the points to test. Cross validating a classifier trains it once per fold on the training part only, tests it once on every point of the test part, and reports as error the mean over folds (and executions) of the percentage of wrong predictions, and accuracy as its complement. With two classes kfold also reports the true and false positives and negatives of all folds, and the mean precision, recall and true negative rate of the folds. Parts keep kind and feature names, the source dataset is unchanged.",
  ["inputs"], "All label sequences of up to 5 points over 3 classes (6 over 2), all k, flags, 3 seeds, 4 sets of mispredicted points, primal and dual classifiers; sizes up to 28 (thorough: 100) in 6 class patterns.",
  "Tests only check accuracies of good models on large balanced files, which leaking, unbalanced or dropped points hardly change.",
  [VAL + "Validation.hpp"] + DAT, [("kfoldsplit, partTrainTest, kfold, kkfold", VAL + "Validation.hpp"), ("splitSample", CORE + "Data.hpp")], INT, SEQN, ["TrainTestPair", "samples and queries a stub classifier receives", "ValidationReport: error, accuracy, counts and rates"])
P("C14", "Confusion matrices and reports count exactly the predictions made",
  "The confusion matrix of a model has, in the row of each true class and the column of each predicted class (in the order of the dataset's classes), exactly the number of such points; accuracies computed from it, from the model directly or from predictions are the fraction of right predictions. The reports count true and false positives and negatives with respect to the positive classes, and sensitivity, recall, specificity, precision and F-score are their defining ratios whenever these exist, also as printed; an already trained model is not trained again.",
  ["inputs"], "All label and prediction sequences of up to 7 points over 2 classes, 5 over 3, 4 over 4 (thorough: 9, 6, 5) for 7 class alphabets, every choice of positive classes, and structured ones up to 60 (thorough: 200).",
  "The tests check lower bounds of accuracies on mostly right predictions, for which transposed or miscounted cells look alike.",
  [VAL + "Validation.hpp"], [("generateConfusionMatrix, confusionMatrixAccuracy, accuracy, metricsReport, classificationReport", VAL + "Validation.hpp")], INT, SEQN, ["returned matrices and reports"])
P("C16", "Regressors predict the mean of the k nearest, follow LMS, and errors are exact",
  "The kNN regressor predicts the mean of the values of the min(k, n) points nearest to the query, for every dataset, order of the points and k (any choice among points tied at the k-th distance), whatever classes or ids the points have. LMS training on data with an exactly linear target reproduces it, also when trained again or on other data, its prediction is the linear function of the solution it reports, and it respects its iteration limit. The mean squared error is the mean of the squared differences of its arguments, and neither evaluation nor training changes the datasets.",
  ["inputs"], "All value sequences of up to 5 points over 3 values in 3 layouts with ties and duplicates, all k and queries, linear targets in 1 to 3 dimensions; sizes up to 40.",
  "Tests check one error bound on one file; ties, k beyond the size, and wrong neighbours of similar value do not reach the bound.",
  [REG + "KNNRegressor.hpp", REG + "LMS.hpp", REG + "Metrics.hpp"], [("KNNRegressor::evaluate", REG + "KNNRegressor.hpp"), ("LMSPrimal::train", REG + "LMS.hpp")], INT, SEQN, ["evaluate", "error measures"])
P("C17", "Perceptrons separate separable data and answer by the solution they report",
  "When training of a perceptron (primal, dual, fixed margin, balanced, any kernel) succeeds, every training point lies on the side of its class (beyond the fixed margin asked for); on separable data it succeeds, on data that cannot be separated it does not. The answer for every query is the sign of the reported solution's value there, and the raw value that value; primal and dual reports agree. This holds again after retraining, on other data of any size and dimension and for copies, and training changes neither the samples nor the classifier copied from.",
  ["inputs", "histories"], "All labelings of up to 4 points (thorough: 5) on a line, grid and cube (some thinned) in several orders, 13 variants of algorithm, kernel and margin, retrained, copied and given other data; sizes up to 60.",
  "Tests train each algorithm once on one file and check the accuracy; wrong raw values, biases, norms, retraining and copies stay unseen.",
  [CLS + "Perceptron.hpp", CLS + "PrimalClassifier.hpp", CLS + "DualClassifier.hpp", CORE + "Kernel.hpp"], [("train", CLS + "Perceptron.hpp"), ("evaluate, setSamples, copies", CLS + "DualClassifier.hpp")], INT, SEQN, ["getSolution", "evaluate", "train's result"])
P("C18", "SMO finds the maximum margin separation of separable data",
  "On data separable in the feature space of its kernel SMO training succeeds, with non-negative multipliers which balance between the classes, satisfy the optimality conditions of the maximum margin problem and give the reported margin, number of support vectors and weights; in the plane the margin is half the distance between the convex hulls of the classes. Every query is answered by the sign of the reported solution. This holds when trained again, on other data, for copies and default constructed classifiers.",
  ["inputs", "histories"], "All labelings of up to 4 points on a line, 5 on a 3x3 grid and of a 2x2x2 cube (some thinned; thorough: 5, 6, all), 3 kernels, trained again, copied, given other data; sizes up to 30 (thorough: 60) in 4 dimensions.",
  "The tests compare one accuracy on one file, to which multipliers off the optimum, wrong margins or biases make no difference.",
  [CLS + "SMO.hpp", CLS + "DualClassifier.hpp", CORE + "Kernel.hpp", CLS + "int_dll.h"], [("take_step, examine_example, training_routine", CLS + "SMO.hpp"), ("int_dll", "subprojects/ufjfmltk-classifier/src/int_dll.cpp")], INT, SEQN, ["getSolution", "evaluate", "train's result"])
P("C23", "Kernel matrices, norms and dual weights are what they are defined to be",
  "A kernel computed or applied to a dataset gives for all pairs of points the value of its function (inner product, polynomial, Gaussian with its parameter, or the custom function given), by its matrix, rows and call alike; so are the matrix with labels, that without a dimension, the norms in dual variables and the weights of dual classifiers. This holds after computing again, applying it to other data of any size, changing type or parameter, and for copies; the dataset stays as it is.",
  ["inputs", "histories"], "All datasets of up to 3 points (thorough: 4) over 4 values in 1 to 3 dimensions with all labels, 9 kernels, 4 patterns of multipliers, all changes of kernel; sizes to 24 (thorough: 40).",
  "Tests compare a custom kernel with the built in one on one dataset; stale matrices, other dimensions and labels are not seen.",
  [CORE + "Kernel.hpp", CLS + "DualClassifier.hpp"], [("compute, function, generateMatrixH, generateMatrixHwithoutDim, norm", CORE + "Kernel.hpp"), ("getDualWeight, getDualWeightProdInt, getWeight", CLS + "DualClassifier.hpp")], INT, SEQN, ["matrices", "function values", "norms", "weights"])
P("C24", "Arithmetic on points is element-wise and leaves the operands unchanged",
  "Every expression of points and scalars (sums, differences, products, quotients, powers, absolute values and other functions, nested, compound, with an element of the point itself as scalar, or assigned to one of its operands) has in each element the value of the same expression of the elements, and evaluating it changes no operand. Sums, dot products, minima, maxima, p-norms, normalisation, selected features, evenly spaced and random points are what they are defined to be.",
  ["inputs"], "All pairs of points of up to 3 values out of 5, all points of up to 5 values, 60 expression forms for each of the 4 operators, norms 0 to 4; sizes up to 80 (thorough: 200) and some up to 1000; points of integers (also unsigned) and floats with every compound operator.",
  "Tests evaluate a few expressions of fixed points; signs, zeros, aliasing and nesting are not varied.",
  [CORE + "Point.hpp", CORE + "ExprOps.hpp", CORE + "ExprScalar.hpp", CORE + "ExprTraits.hpp"], [("operators, norm, normalize, max, min, dot", CORE + "Point.hpp"), ("expression templates", CORE + "ExprOps.hpp")], INT, SEQN, ["elements of results", "reductions"])
P("C25", "Every distance measure is the one it is named after",
  "Each of the 38 distance measures gives for all pairs of points in its domain the value of its definition in the literature. Hence the distance of a point to itself is zero (except Bhattacharyya), divergences apart no distance is negative, the symmetric ones do not depend on the order of the points, and the metrics separate different points and satisfy the triangle inequality.",
  ["inputs"], "All pairs of points of up to 3 values out of 4 to 6, positive and signed, with a third point each; sizes up to 60 (thorough: 150).",
  "No test calls more than one of the measures, and that only through the accuracy of a classifier.",
  [CORE + "DistanceMetric.hpp"], [("operator() of the measures", CORE + "DistanceMetric.hpp")], INT, SEQN, ["distances"])
P("C26", "Numbers survive their conversion to text and back",
  "Integers convert to their decimal text and back, for every int; decimal texts (with sign, fraction, exponent, leading blanks and anything but a number behind) convert to the double they denote; doubles convert to texts which denote them to within 1e-9 (relative in exponential notation). A text is recognised as a number exactly if it is one. Splitting a text gives its non-empty fields in order, trimming removes exactly the blanks at its ends.",
  ["inputs"], "All integers up to 2 million (thorough: 100 million), all around powers and a stride over the whole range; all texts of up to 6 (thorough: 7) characters over 01.-+e9; 10000 decimals and their neighbours for each magnitude from 1e-14 to 1e18.",
  "Tests convert a handful of texts; carries between digits, exponents and malformed texts need particular numbers.",
  [SRC + "Utils.cpp", CORE + "Utils.hpp"], [("itos, stoin, atod, dtoa, is_number, tokenize", SRC + "Utils.cpp"), ("trim", CORE + "Utils.hpp")], INT, SEQN, ["texts", "numbers"])
P("C27", "The linked list of support vectors holds exactly what was put in, in order",
  "After any history of appending after a node and removing nodes the list reads, forwards and backwards, exactly the elements appended and not removed in their order; removing returns the node before the removed one (none for the first) and resets its pointer, and freeing resets the list.",
  ["histories"], "All histories of up to 6 (thorough: 8) operations on lists of up to 4 elements; histories of up to 120 operations in 7 patterns.",
  "It is only used inside of SMO; no test looks at the list.",
  [CLS + "int_dll.h", "subprojects/ufjfmltk-classifier/src/int_dll.cpp"], [("append, remove, free", "subprojects/ufjfmltk-classifier/src/int_dll.cpp")], INT, SEQN, ["contents in both directions"])
P("C28", "Statistics of points and datasets are what they are defined to be",
  "Mean, variance, standard deviation and covariance of points and features, the radius of a dataset and the distance of the centers of its classes, with and without given features, have for every dataset the values of their definitions (population variances, sample deviation of a feature and covariance; features are ignored by their names), and computing them leaves the data unchanged.",
  ["inputs"], "All points of up to 3 values out of 4 in pairs, all datasets of up to 3 points in up to 3 dimensions (thorough: 4) with all labels, 3 schemes of feature names and all sets of features left out; sizes up to 40 (thorough: 100), dimensions up to 130.",
  "Tests compare rounded values for one dataset; names, features left out, single points and other labels are not varied.",
  [CORE + "Statistics.hpp"], [("mean, var, std_dev, covar, radius, distCenters, distCentersWithoutFeats", CORE + "Statistics.hpp")], INT, SEQN, ["returned values"])
P("C29", "Generated datasets have the shape, classes and structure asked for",
  "Generated spirals lie on the arms of their classes, moved by less than the noise; blobs lie around their centers within their deviations, balanced between classes, with the centers in the range asked for; regression data follow the returned coefficients (zero for uninformative features), bias and noise. Number of points (floor(n/classes) per spiral, the sum of the numbers given for every blob), dimension, type, labels (-1 and 1 for two classes), ids and names are as asked for, and shuffling only changes the order.",
  ["inputs"], "All sizes up to 24 (thorough: 60), up to 5 classes, 4 dimensions (12 for regression), several deviations, margins, loops and biases, 3 seeds, shuffled or not; up to 17 classes; sizes 100, 333 and 1000.",
  "Tests check the size and dimension of one dataset of each kind.",
  [SRC + "Datasets.cpp", CORE + "Datasets.hpp"], [("make_spirals, make_blobs, make_regression", SRC + "Datasets.cpp")], INT, SEQN, ["generated points, labels and coefficients"])
P("C19", "One-vs-all and one-vs-one train on the right classes and combine all answers",
  "The one-vs-all classifier trains one learner for each class on all samples, with the points of that class positive and all the others negative; one-vs-one trains one for each ordered pair of classes on exactly the points of the two. The prediction is the class whose learner gives the largest value, respectively a class which wins the most pairs, with raw answers in the order of the classes. Classes may be any labels; this holds after training again and with other data, and neither training nor evaluation changes the samples.",
  ["inputs", "histories"], "All label sequences of up to 6 points (thorough: 7) over up to 4 classes (5) in 3 class alphabets with stub learners and all answers of them; circles of up to 24 points (60) with real learners.",
  "The tests check the accuracy on one file of three classes; answers ignored, classes in another order and wrong negatives hardly change it.",
  [CLS + "OneVsAll.hpp", CLS + "OneVsOne.hpp"], [("train, evaluate", CLS + "OneVsAll.hpp"), ("train, evaluate", CLS + "OneVsOne.hpp")], INT, SEQN, ["what a stub learner is trained on", "evaluate"])
P("C20", "Ensembles answer the class their members give the largest vote",
  "A voting classifier answers a class with the largest (weighted) number of votes, or with the largest weighted sum of values when voting softly, whatever the members answer. AdaBoost trains its members one after the other and answers the class with the largest sum of their SAMME weights. Bagging trains every member on samples drawn from the data with classes of their own, and the perceptron committee answers the majority of its members. Training again and with other data behaves as a new ensemble would; training and evaluating leave the samples as they are.",
  ["inputs", "histories"], "All answers of up to 5 members over up to 4 classes with several weights; all answers of up to 4 members (thorough: 5) to up to 5 points (6) of up to 5 classes, thinned; bagging and committees for sizes up to 30 (60) in several class patterns and seeds.",
  "The tests check accuracies of good members, who rarely disagree; ties, weights, and unknown answers stay unseen.",
  [ENS + "VotingClassifier.hpp", ENS + "AdaBoostClassifier.hpp", ENS + "BaggingClassifier.hpp", ENS + "PerceptronCommittee.hpp"], [("evaluate", ENS + "VotingClassifier.hpp"), ("train, evaluate", ENS + "AdaBoostClassifier.hpp"), ("train", ENS + "BaggingClassifier.hpp"), ("train, evaluate", ENS + "PerceptronCommittee.hpp")], INT, SEQN, ["answers of stub members and of the ensemble"])
P("C21", "K-means ends with each point at its nearest center and centers in the means",
  "Clustering into k clusters ends, for every dataset, initialisation, seed and distance measure, with k centers such that every sample is assigned to a cluster of a nearest center (with respect to the measure used) and each center of a non-empty cluster is the mean of its points; cluster members partition the samples, and the answer for any point is a nearest center. A non-zero seed determines the result; this holds when trained again, for copies and with other data, and the samples stay as they are.",
  ["inputs", "histories"], "All multisets of up to 5 points (thorough: 6) on a line and a 3x3 grid with duplicates, up to 4 clusters (also more than points), both initialisations, several seeds and measures; sizes up to 60 (150) in up to 5 dimensions.",
  "The tests check that one dataset is clustered into the number of clusters asked for.",
  [CLU + "KMeans.hpp", CLU + "Clusterer.hpp"], [("train, assignment and update steps, kmeanspp", CLU + "KMeans.hpp")], INT, SEQN, ["centers", "clusters", "evaluate"])
P("C32", "Incremental margin training separates separable data with the margin it reports",
  "On separable data incremental margin training (primal with any norm, dual with any kernel) succeeds, on data which cannot be separated it does not. When it succeeds every training point is on the side of its class, the hyperplane lies in the middle of the classes (primal), and the reported norm and margin are those of the reported solution, which also answers every query; the support vectors listed and counted are the points with a multiplier (dual); the margin never exceeds the largest possible one and reaches a fair part of it. This holds when trained again, for copies and with other data, and the samples stay as they are.",
  ["inputs", "histories"], "All labelings of up to 3 points (4, thinned; thorough: 5) on a line of 5 and a 3x3 grid, 4 norms, 2 kernels, trained again, copied and given other data; sizes up to 30 (60) in up to 5 dimensions.",
  "The tests check the accuracy and a lower bound of the margin on one file; wrong margins, norms and retraining stay unseen.",
  [CLS + "IMA.hpp", CLS + "Perceptron.hpp"], [("IMAp::train, IMADual::train", CLS + "IMA.hpp"), ("PerceptronFixedMarginPrimal, IMApFixedMargin", CLS + "Perceptron.hpp")], INT, SEQN, ["getSolution", "evaluate", "train's result"])
P("C22", "Feature selection keeps the best ranked features, projected from the samples",
  "Fisher and Golub keep exactly the number of features asked for, those with the largest scores (the squared, respectively absolute, difference of the class means over the sum of the standard deviations); recursive feature elimination removes, from the weights of the learner trained on what is left, the features of smallest weight in the steps asked for. When training fails on the way, the features of the last step where it succeeded are returned. The result (also of the ordered search) is the projection of the samples onto the kept features, names included; the learner is only trained on such projections, the samples stay as they are, and selecting again gives the same.",
  ["inputs", "histories"], "All features with values of 3 over up to 4 points in up to 3 dimensions (thinned; thorough: 4) with all labels and 4 name schemes; all orders of up to 5 weights (6), all jumps and failing steps; ordered search in up to 5 dimensions; dimensions up to 20 (40).",
  "The tests check the number of features kept of one dataset, never which ones, and no training fails in them.",
  [FS + "Fisher.hpp", FS + "Golub.hpp", FS + "RFE.hpp", FS + "AOS.hpp", CORE + "Data.hpp"], [("selectFeatures", FS + "Fisher.hpp"), ("selectFeatures", FS + "Golub.hpp"), ("selectFeatures", FS + "RFE.hpp"), ("selectFeatures, mainLoop", FS + "AOS.hpp")], INT, SEQN, ["selectFeatures", "what a stub learner is trained on"])
P("C30", "The ordered search takes the best node first and knows each feature set once",
  "The heap of the ordered feature search gives back every node inserted exactly once, always one with the largest value, and pruning removes exactly the nodes of older levels whose value is too small or whose level is too far back. The hash of visited feature sets accepts a set unless the same set is already known, in which case it keeps the larger projected value, and forgets pruned nodes. Sizes and counters are the true ones.",
  ["histories"], "All histories of up to 5 operations (thorough: 6) out of 12; all orders of up to 7 values (8) with all choices of old nodes; up to 120 nodes (400) in 6 patterns; all sequences of up to 5 (6) additions of 7 colliding sets.",
  "The tests check the number of features found; a heap out of order only changes the path of the search.",
  [FS + "AOS.hpp"], [("Heap::insert, pop, cut, percolate", FS + "AOS.hpp"), ("Hash::add, remove", FS + "AOS.hpp")], SQT, SEQN, ["pop", "add", "getSize, getContheap, getConthash"])
P("C31", "What a trained model answers depends on the point only; asking changes nothing",
  "The class, raw value and probability a trained classifier, regressor, clusterer, ensemble or multi class model answers for a point are the same whenever they are asked for: first, again, after any other questions, and in a batch, which answers every point of a dataset in order as single questions would, whatever labels and ids the points have. Asking changes neither the model (its solution) nor its samples, the points asked for or the dataset evaluated.",
  ["histories", "inputs"], "Every third sequence of 3 questions (thorough: every 31st of 4) out of 9, chained into one history per model, for 20 kinds of models trained on thinned labelled multisets of grid points up to size 4 (5), three classes up to 5 points (6), and patterned datasets up to 24 points (60).",
  "The tests compute accuracies on trained models once; no model is asked twice or compared with a fresh one.",
  [CLS + "KNNClassifier.hpp", CLS + "PrimalClassifier.hpp", CLS + "DualClassifier.hpp", ENS + "VotingClassifier.hpp", ENS + "AdaBoostClassifier.hpp", REG + "LMS.hpp", REG + "KNNRegressor.hpp", CLU + "KMeans.hpp", CORE + "Learner.hpp"], [("Learner::batchEvaluate", CORE + "Learner.hpp"), ("evaluate", CLS + "DualClassifier.hpp"), ("evaluate", CLS + "KNNClassifier.hpp"), ("evaluate", ENS + "VotingClassifier.hpp")], SQT, SEQN, ["evaluate", "batchEvaluate", "getPredictionProbability", "getSolution", "getSamples"])
P("C33", "Training stops at its limits wherever they cut it and leaves a faithful model",
  "With a limit of iterations, updates, epochs or time training ends for every dataset, soon after the limit: at most one pass later, and for the incremental margin algorithms at most one training of their engine later. Wherever it is cut, success is reported only if the samples are separated, the model answers by the solution it reports, and the samples stay as they are; without the limit it can then be trained to success. A limit which is not reached changes nothing, and a limit counts for each training, not for all the trainings of a perceptron.",
  ["crash points", "histories"], "11 algorithms x every value of each of their limits from 0 to 10 (thorough: 60) and around the number needed, further values growing geometrically, with a clock that advances with every reading (so time runs out at every reading); labelled sets of up to 4 (5) grid points and 5 (7) points of a line, separable or not, sizes up to 20 (40).",
  "The tests use limits which are never reached; where time runs out depends on the machine.",
  [CLS + "Perceptron.hpp", CLS + "IMA.hpp", CLS + "SMO.hpp", REG + "LMS.hpp", CLU + "KMeans.hpp", CORE + "Learner.hpp", CORE + "Timer.hpp"], [("train", CLS + "Perceptron.hpp"), ("IMAp::train, IMADual::train", CLS + "IMA.hpp"), ("training_routine", CLS + "SMO.hpp"), ("elapsed", CORE + "Timer.hpp")], SQT, SEQN, ["train's result", "getSteps, getUpdates", "readings of the clock", "getSolution", "evaluate"])
P("C34", "Diverse subspaces hold different features, chosen by their defining score",
  "The diverse subspace method gives the number of subspaces asked for, each with the number of features asked for, all different and within the dataset; they are chosen round by round, each time a feature with the largest weighted sum of its correlation with the labels and of the diversity it brings. The diversities and correlations it reports are what they are defined to be (constant features are not correlated). Using it again gives the same, and the dataset stays as it is.",
  ["inputs"], "All sets of up to 4 binary features of up to 3 points and 3 of 4 points with the labellings (thinned; thorough: all), sizes up to 15 (30) and dimensions up to 7 (10), with up to 3 (4) subspaces, all numbers of features and 5 weights.",
  "No test touches the method; features chosen twice or ignored qualities show in no accuracy.",
  [CORE + "Sampling.hpp", CORE + "Statistics.hpp"], [("DSM::operator(), div_ms, div_mx, qual_correlation", CORE + "Sampling.hpp")], INT, SEQN, ["the subspaces", "div_ms, div_mx, qual_correlation"])
P("C35", "Plots show exactly the samples, by class, and the hyperplane of the solution",
  "Every plot of a dataset draws for each class exactly its points, under its name, with the features asked for on the axes asked for, inside of ranges which cut no point off; regression plots draw the targets, decision surfaces the learner's answers on a grid over the ranges, and functions are the hyperplane of the solution given and its margins. The script returned is what gnuplot is sent, with the title, labels, terminal and output asked for. This holds for any sequence of plots and exchanged samples with several objects alive; temporary files and sessions end with the object unless they are to be kept, and the samples stay as they are.",
  ["inputs", "histories"], "All sequences of class names (5 alphabets, up to 4 rows; thorough: 5) x 5 patterns of values x all plots on all choices of axes (thinned to a quarter; thorough: all), shared session or not; all sequences of 3 (4) operations out of 9 on two objects, the samples changed and exchanged in between; regression data up to 5 (6) points of up to 3 features.",
  "The tests only call the plots and look at nothing; they need gnuplot and a display.",
  ["subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp", "subprojects/ufjfmltk-visual/src/gnuplot_i.cpp"], [("createTempFiles, sortLabels, configureRange, fetchConfigs, plot*, plotDecisionSurface2D", "subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp"), ("cmd, init", "subprojects/ufjfmltk-visual/src/gnuplot_i.cpp")], SQT, SEQN, ["scripts", "what the stand-in for gnuplot is sent", "temporary files"])
P("C36", "Ordered feature search returns the subset of features with the largest margin",
  "With full breadth and without pruning, the ordered search (AOS) returns a subset of features of the size asked for with the largest margin among all subsets of that size, or of the smallest size at which the classes can still be separated, whatever the sorting, the look ahead and the cross validation of the steps; with a breadth of one it gives up in each step the feature its criterion (|w|, and |w| combined with the distance of the centers, the radius, Golub's or Fisher's score) ranks lowest. With any breadth, choice and pruning the result has the size asked for (or the last one whose training succeeded) and is the projection of the samples, which stay as they are; selecting again gives the same.",
  ["inputs", "histories"], "All datasets of 3-4 points of 2-3 features of 3 (2) values up to order (every 23rd; thorough: every 2nd) x all labels x all goals; patterned data of 3-6 (thorough 8) features and 4-7 points x all goals, 6 sortings, 3 look aheads, with and without validation (every 11th; thorough: every 2nd); breadth one with up to 6 (9) features, all goals and sortings; 5 breadths x 2 choices x 3 look aheads x 3 cuts with failing trainings (every 53rd; thorough: every 7th).",
  "The tests only look at the number of features of one selection from one dataset with one setting.",
  ["subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp"], [("AOS::selectFeatures, mainLoop, lookAhead, Heap, Hash", "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp")], SQT, SEQN, ["the features kept", "the projection"])
P("C37", "What is printed is what was done, and verbosity changes no result",
  "Training, cross validation and feature selection give the same result with every verbosity, and training and cross validation print nothing without. What they print is true: the steps, updates, margins, numbers of support vectors, weights, biases, multipliers and function values of the solution (incremental margin, SMO, LMS); of every fold the numbers of points and their distribution, which add up, and the errors, which average to the reported one; of a selection the features kept and given up and the dimension, margin and support vectors of the model it ends with and passed through. A point prints as its id, values and label, a dataset as its points, a confusion matrix as its classes and counts, a report as its fields.",
  ["inputs", "configurations"], "Points of up to 3 values out of 5; tables of up to 4 classes; 22 learners x 4 verbosities on all labelings of up to 4 (3) points of 1 (2, every 5th; thorough: all) features of 3 values and patterned data up to 17 (40) points; all folds of up to 9 (12) points in 4 patterns, both kinds of classifier, 5 sets of errors; selections from 2-5 features to all goals, jumps and failing trainings.",
  "The tests never look at what is printed and do not compare runs of different verbosities.",
  [CORE + "Point.hpp", VAL + "Validation.hpp", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp", "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp", "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp"], [("operator<<", CORE + "Point.hpp"), ("printConfusionMatrix", CORE + "Utils.hpp"), ("kfold, kkfold, ValidationReport::print", VAL + "Validation.hpp"), ("IMAp::train, IMADual::train", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp"), ("SMO::train, test_learning", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp"), ("RFE::selectFeatures", "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp")], INT, SEQN, ["the standard streams", "solutions, reports and results with verbosity 0 to 3"])
P("C38", "Training may start from any given solution and ends as from nothing",
  "A perceptron (primal, fixed margin, dual) or incremental margin learner given an initial solution - right or wrong, zero, or for other features or another number of samples - still separates separable data (with the fixed margin where it succeeds) and never claims to separate data which cannot be; its norm, margin, weights and answers are those of its solution. A given solution which already separates the data is kept (up to the scaling and centring of the incremental margin, which never lowers its margin); the given solution object and the samples stay as they were.",
  ["inputs", "histories"], "All labelings of up to 4 (5) points on a line of 5, up to 4 (5) on a 3x3 grid and up to 4 on a cube (the largest size every 5th-9th; thorough: all) and patterned data up to 22 (40) points in 1-3 dimensions; starts: every weight vector over {-2,0,1} with 3 biases, multipliers over {0,2.5} ({0,1,2.5}) with 2 biases, solutions of other learners; 4 norms, linear and Gaussian kernel.",
  "The tests always start from nothing.",
  ["subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp"], [("constructors with initial_solution, train", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp"), ("IMAp, IMApFixedMargin, IMADual with initial_solution, train", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp")], INT, SEQN, ["Solution given and reported", "evaluate", "getCtot"])
