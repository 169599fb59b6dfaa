"""writes properties.jsonl (run by hand)"""
import json
B = "smote_variants/base/"
O = "smote_variants/oversampling/"
E = "smote_variants/evaluation/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "Additive oversamplers keep the input intact and append only minority rows",
  "For every additive technique (every oversampler except those that by design filter, relabel, move, project or rebuild the training set: A_SUWO, ADG, AHC, AMSCO, DE_oversampling, DSMOTE, DSRBF, E_SMOTE, Gazzah, IPADE_ID, ISMOTE, ISOMAP_Hybrid, KernelADASYN, MOT2LD, NEATER, NRAS, SMOTE_ENN, SMOTE_FRST_2T, SMOTE_IPF, SMOTE_TomekLinks, SPY, SUNDO, SVM_balance, Stefanowski, VIS_RST), any finite binary dataset and any valid parameters, the result begins with all input rows and labels, bit-identical and in the input order, and has the input's number of features. Every row after them carries the minority label (on a tie: the larger label).",
  ["inputs", "configurations"], "all additive techniques x all valid parameter settings x all finite binary datasets (any row order, labels, dtype, duplicates, degenerate geometry)",
  "the existing tests check on a handful of fixed datasets only that two classes come out and that something is returned; no test compares the output with the input",
  [O + "*.py", B + "_oversampling.py"],
  [("concatenation of input and generated samples", O + "*: sampling_algorithm"), ("early exits returning copies", B + "_oversampling.py: sample, return_copies")],
  observe=["sample", "fit_resample", "sample_with_timing"])
p("C02", "Filtering techniques only select: majority rows are never invented",
  "For techniques that filter or replace samples, majority-labelled rows of the result are a sub-multiset of the original majority rows (A_SUWO, DE_oversampling, Gazzah, ISMOTE, MOT2LD, NRAS, SMOTE_ENN, SMOTE_FRST_2T, SMOTE_IPF, SMOTE_TomekLinks, SPY, SUNDO, Stefanowski, VIS_RST), in their original relative order except for ISMOTE. AHC, ISMOTE, NEATER, SMOTE_FRST_2T, SPY, SUNDO, Stefanowski and VIS_RST keep every original minority row with its label, NRAS and NEATER keep every original majority row with its label, and the output of SPY and Stefanowski contains only rows of the input (rows are compared up to the rounding of the techniques' internal normalisation).",
  ["inputs", "configurations"], "the listed techniques x parameter settings x finite binary datasets",
  "tests only look at the number of classes in the output of these techniques, so a filter that drops, duplicates or mislabels originals is invisible",
  [O + f for f in ("_smote_enn.py", "_smote_tomeklinks.py", "_smote_ipf.py", "_spy.py", "_stefanowski.py", "_sundo.py", "_vis_rst.py", "_smote_frst_2t.py", "_ismote.py", "_neater.py", "_nras.py", "_a_suwo.py", "_mot2ld.py", "_de_oversampling.py", "_gazzah.py", "_ahc.py")],
  [("noise filter / selection masks", O + "*"), ("noise filters", "smote_variants/noise_removal/")], observe=["sample"])
p("C03", "The requested proportion decides exactly how many samples are generated",
  "For additive techniques with a proportion parameter other than CCR, NDO_sampling, SMOTE_D, SMOTE_RSB, SSO and polynom_fit_SMOTE_star/bus/poly, a call appends exactly int((n_majority - n_minority) * proportion) rows (0 if that is not positive) or, when the technique cannot sample the data, none. ADOMS, CBSO, DEAGO, distance_SMOTE, Edge_Det_SMOTE, Gaussian_SMOTE, polynom_fit_SMOTE_mesh, Lee, LLE_SMOTE, LVQ_SMOTE, MCT, MSYN, NT_SMOTE, OUPS, ProWSyn, Random_SMOTE, ROSE, RWO_sampling, SDSMOTE, Selected_SMOTE, SMOTE_Cosine, SMOTE_OUT, SMOTE, SN_SMOTE, Supervised_SMOTE, SMOTE_AMSR, SMOTEWB always append the exact number whenever the minority class has more than two members. Nothing is ever appended when the number is 0. Of the techniques that also drop or rebuild samples, NRAS, E_SMOTE, DSRBF and KernelADASYN leave the minority class larger by exactly that number (dropped noise is replaced) or return the data unchanged, and A_SUWO, DSMOTE, MOT2LD, SMOTE_ENN, SMOTE_TomekLinks and SMOTE_IPF never by more than it.",
  ["inputs", "configurations"], "techniques x proportions (0, small, 1, >1) x class sizes x geometry",
  "no test asserts the number of generated samples",
  [B + "_oversampling.py", O + "*.py"],
  [("det_n_to_sample", B + "_oversampling.py"), ("deterministic and random simplex selection", B + "_simplexsampling.py")], observe=["sample"])
p("C04", "A fixed random_state makes sampling a pure function of data and parameters",
  "Two instances of any oversampler built with equal parameters and equal integer random_state return bit-identical results on equal data, whatever the state of numpy's global random generator and whatever other oversamplers ran before in the same process. A sequence of calls on one instance is likewise reproducible: replaying the sequence on a new equal instance gives bit-identical results for every call, and an instance that has sampled other data and is given its random_state again by set_params samples exactly like a new one.",
  ["inputs", "configurations", "histories"], "all techniques x parameters x datasets x global RNG states x preceding call histories",
  "reproducibility is tested on one dataset per technique with an untouched global generator, never across histories or with degenerate data that take the fallback paths",
  [B + "_base.py", O + "*.py"], [("RandomStateMixin", B + "_base.py"), ("random_state passed to sub-estimators", O + "*")], observe=["sample"])
p("C05", "Sampling never alters or aliases the caller's data, parameters or RNG",
  "Calling any oversampler or noise filter leaves the caller's data arrays and parameter dictionaries and the parameters reported by the object itself unchanged, and the returned arrays never share memory with the input arrays. With an integer random_state it also leaves numpy's global random generator in the state it found it (DEAGO, which trains a network, excepted), and the package-wide warning and memory configuration unchanged.",
  ["inputs", "configurations"], "all techniques and filters x parameters x datasets (including read-only, strided and Fortran-ordered arrays)",
  "no test compares inputs before and after, or writes into a result to see whether the input changes",
  [O + "*.py", "smote_variants/noise_removal/*.py", B + "_oversampling.py", B + "_simplexsampling.py"],
  [("copies on early exits", B + "_oversampling.py"), ("parameter dictionaries copied before use", O + "*")], observe=["sample", "remove_noise"])
p("C06", "Every valid dataset is sampled to a well-formed result, never a crash",
  "For every oversampler, any binary dataset with finite features and at least one sample per class, and any parameters inside the documented ranges, sampling terminates without an exception. The result is a finite 2-d array with an equally long label vector over the two original labels, and its feature count equals that of the technique's transform applied to the input.",
  ["inputs", "configurations"], "all techniques x parameters x datasets incl. duplicates, constant and collinear features, tiny classes, extreme scales",
  "the fixed test datasets cover a dozen geometries and mostly default parameters; degenerate combinations reach code the tests never execute",
  [O + "*.py", B + "*.py"], [("checks on minimal class size / dimension", B + "_oversampling.py: sample"), ("fallbacks of each technique", O + "*")], observe=["sample", "preprocessing_transform"])
p("C07", "Interpolating techniques stay inside the region their definition allows",
  "With the default simplex dimension and no gaussian component, every generated minority sample of ADASYN, AND_SMOTE, ANS, ASMOBD, A_SUWO, Assembled_SMOTE, Borderline_SMOTE1, CBSO, CE_SMOTE, CURE_SMOTE, DBSMOTE, E_SMOTE, Edge_Det_SMOTE, GASMOTE, G_SMOTE, Lee, MCT, MOT2LD, MSYN, MWMOTE, NEATER, NRSBoundary_SMOTE, NT_SMOTE, ProWSyn, SDSMOTE, SMMO, SMOTE, SMOTEWB, SMOTE_D, SMOTE_ENN, SMOTE_IPF, SMOTE_PSOBAT, SMOTE_RSB, SMOTE_TomekLinks, SN_SMOTE, SOMO, SVM_balance, SYMPROD, Supervised_SMOTE, TRIM_SMOTE, cluster_SMOTE, distance_SMOTE, kmeans_SMOTE, polynom_fit_SMOTE_bus, polynom_fit_SMOTE_mesh, polynom_fit_SMOTE_star lies in the convex hull of the minority class; with default simplex settings it lies on the segment between two minority samples (all of those except CURE_SMOTE, NT_SMOTE, SMMO, SYMPROD, distance_SMOTE, polynom_fit_SMOTE_star), for ADASYN, GASMOTE, Lee, MSYN, NRSBoundary_SMOTE, SDSMOTE, SMOTE, SMOTE_ENN, SMOTE_RSB, SMOTE_TomekLinks, SVM_balance on the segment from a minority sample to one of its n_neighbors nearest minority neighbours (Euclidean metric). Samples of Random_SMOTE, Selected_SMOTE, SMOBD, SMOTE_AMSR stay in the bounding box of the minority class, those of Borderline_SMOTE2, LN_SMOTE, MSMOTE, NDO_sampling, OUPS, SL_graph_SMOTE, Safe_Level_SMOTE, IPADE_ID in the bounding box of the whole dataset.",
  ["inputs", "configurations"], "techniques x parameters (neighbour counts, simplex dimension, sampling modes, metric) x datasets",
  "no test looks at the generated coordinates",
  [B + "_simplexsampling.py", O + "*.py"], [("simplex sampling", B + "_simplexsampling.py"), ("per-technique interpolation", O + "*")], observe=["sample"])
p("C08", "Results do not depend on how the two classes are encoded",
  "Relabelling the classes of an imbalanced dataset with any other pair of integers (either one larger, negative, not adjacent) changes nothing but the labels: every oversampler with a Euclidean, covariance or identity metric generates, keeps and drops the same rows, and the same rows carry the minority label. Techniques that train a classifier on the labels (AMSCO, DSRBF, GASMOTE, IPADE_ID, SMMO, SMOTE_IPF, SMOTE_PSO, SMOTE_PSOBAT, SMOTEWB, SSO, Supervised_SMOTE, SVM_balance) are held to this for encodings that keep the order of the two classes. The minority class is determined by its count, never by the label value.",
  ["inputs", "configurations"], "all techniques x datasets x label pairs",
  "all test datasets use labels 0/1 with 1 as the minority",
  [B + "_base.py", O + "*.py"], [("class_label_statistics", B + "_base.py"), ("min_label / maj_label used throughout", O + "*")], observe=["sample"])
p("C09", "Parameters round-trip: an instance can be rebuilt from its parameters",
  "For every oversampler and noise filter, get_params() contains every constructor parameter with the value in effect, survives str/literal_eval (and JSON for oversamplers), and constructing the class named in it with it yields an instance with equal get_params() whose sampling output is bit-identical. Every listed parameter combination is constructible and is reflected in get_params(), set_params() of random_state, proportion and neighbour counts takes effect like constructing with them (except in ADASYN, MSYN, SYMPROD and polynom_fit_SMOTE, which keep them under another name), and the MLP wrapper's copy and the undersamplers and metric helpers obey the same round trip.",
  ["configurations", "inputs"], "all classes x parameter settings x datasets",
  "one random combination per class is instantiated by the tests; the rebuilt instance is never compared with the original",
  [O + "*.py", B + "_base.py", B + "_oversampling.py", "smote_variants/classifiers/_mlpclassifierwrapper.py", "smote_variants/noise_removal/*.py"],
  [("get_params / set_params / parameter_combinations", O + "*"), ("instantiate_obj", B + "_base.py")], observe=["get_params", "set_params", "parameter_combinations"])
p("C10", "Simplex sampling yields convex combinations of exactly the allowed neighbours",
  "For any points, neighbour lists, base weights, neighbour weights and sampling mode, simplex sampling returns exactly the requested number of samples, each a convex combination of a base point and distinct listed neighbours of that base point (of the other point set if one is given); base points or neighbours of zero weight are never used. In deterministic mode the number of samples per simplex differs from its expected share by less than one plus the unavoidable rounding, the result is independent of the random state, and samples of one pair split its segment evenly; vertex weights in [0, 1] scale the step from the base point towards the neighbour. In random mode every simplex gets samples in proportion to the weights of its points (or to its volume), up to chance. A Gaussian component adds independent normal noise of the deviation given, overall or per feature, to every coordinate of every sample.",
  ["inputs", "configurations"], "points x neighbour tables x weights x modes x n_dim",
  "unit tests use one fixed 2-d array and compare shapes or a few constants",
  [B + "_simplexsampling.py"], [("SimplexSamplingMixin.sample_simplex", B + "_simplexsampling.py"), ("deterministic_sample", B + "_simplexsampling.py")], observe=["sample_simplex", "helpers of the module"])
p("C11", "Nearest-neighbour queries equal brute force in every metric and chunk size",
  "For any points and any symmetric positive semidefinite metric tensor, pairwise and row-wise distances equal the quadratic-form distance, and the k nearest and the in-radius neighbours reported equal brute force (points exactly on the border of the ball included, distances ascending, indices consistent with the distances). Results do not depend on the configured memory chunk, however small.",
  ["inputs", "configurations"], "points (ties, duplicates) x tensors x k/radius x chunk limits",
  "tests use one random matrix and the default chunk",
  [B + "_metrictensor.py", "smote_variants/config.py"], [("pairwise_distances_mahalanobis", B + "_metrictensor.py"), ("NearestNeighborsWithMetricTensor", B + "_metrictensor.py")], observe=["kneighbors", "radius_neighbors", "pairwise_distances_mahalanobis"])
p("C12", "Learned metric tensors are symmetric, finite and positive semidefinite",
  "For any dataset with finite features, every metric learning method implemented by the package itself (cov, cov_min for labels 0/1 with two minority samples, MI_weighted, id, rf) returns a finite symmetric positive semidefinite matrix of the data's dimension, deterministically. Matrix repair returns a symmetric matrix with all eigenvalues at least the floor, leaving matrices that already satisfy it unchanged; the classifier dissimilarity is symmetric with values in [0, 1]. Border-point selection keeps exactly the samples with a foreign label among their nearest neighbours, together with their labels; dropping correlated columns keeps at least one column of every correlated group and is applied identically to new data.",
  ["inputs", "configurations"], "datasets x methods x matrices",
  "tests only check shapes on one dataset",
  [B + "_metrictensor.py"], [("MetricTensor.tensor", B + "_metrictensor.py"), ("fix_pd_matrix, psd_mean, construct_tensor", B + "_metrictensor.py")], observe=["tensor", "fix_pd_matrix", "dissimilarity_matrix"])
p("C13", "Multiclass oversampling equalises every class and keeps the originals",
  "For any multiclass dataset, additive oversampler and both strategies, the result of multiclass oversampling starts with the original rows and labels, contains only original labels, and, except with the techniques that count differently (CCR, NDO_sampling, SMOTE_D, SMOTE_RSB, SSO, polynom_fit_SMOTE_star/bus/poly), no class grows beyond the size of the largest class. With an oversampler that always generates the requested number (SMOTE, distance_SMOTE, ProWSyn and the like) every class with more than two members ends up with exactly the size of the largest class, and samples generated for a class by an interpolating technique lie between members of that class only.",
  ["inputs", "configurations"], "class counts (ties, 2..6 classes) x labels x geometry x oversamplers x strategies",
  "tests run on the wine dataset only, where class sizes are distinct; class sizes are only checked for one strategy",
  ["smote_variants/multiclassoversampling/_multiclassoversampling.py"], [("proportion computation", "_multiclassoversampling.py"), ("per-class sampling loop", "_multiclassoversampling.py")], observe=["MulticlassOversampling.sample"])
p("C14", "Noise filters remove exactly the samples their rule names",
  "Every noise filter returns a sub-multiset of its input rows with unchanged labels and never removes from the protected class (minority for majority-removing modes, condensing and one-sided selection; NCL removes only majority). On data without distance ties the removed set equals a direct implementation of the rule: Tomek links, edited nearest neighbours, neighbourhood cleaning; the condensed set classifies the whole majority class correctly by 1-NN.",
  ["inputs", "configurations"], "datasets x filters x modes",
  "tests only check that something is returned",
  ["smote_variants/noise_removal/*.py"], [("remove_noise of each filter", "smote_variants/noise_removal/")], observe=["remove_noise"])
p("C15", "Undersampling balances by dropping majority rows only",
  "Undersamplers return all minority rows unchanged, together with exactly as many distinct rows of the majority class chosen without replacement, for any encoding of the two classes. With an integer random_state the choice is reproducible, and the distance-driven mode keeps the majority rows closest to the generated samples.",
  ["inputs", "configurations"], "datasets x undersamplers x modes x labels",
  "tests check the output shape on one dataset",
  ["smote_variants/undersampling/*.py"], [("sample", "smote_variants/undersampling/")], observe=["sample"])
p("C16", "Scores equal their textbook definitions",
  "For any 0/1 test labels and predicted probabilities, the confusion counts partition the test set and every reported score (accuracy, sensitivity, specificity, ppv, npv, rates, balanced/geometric accuracy, F1, MCC, informedness, markedness, likelihood and uncertainty terms, Brier, log-loss, AUC, precision in the top 20 percent) equals an independent computation from the definition. A score is undefined only where its definition divides by zero (ppv and npv count as 0 when nothing is predicted for their class), and magnitudes of the counts never distort it.",
  ["inputs"], "label/probability vectors incl. ties at 0.5, single-sided predictions, large counts",
  "tests compare a few constants",
  [B + "_metrics.py"], [("calculate_atoms / label_scores / prob_scores", B + "_metrics.py")], observe=["calculate_all_scores", "calculate_label_scores", "calculate_prob_scores", "prediction_labels"])
p("C17", "Folding partitions the data, and the cached folds equal the in-memory ones",
  "For any binary dataset and validator settings, within every repeat the test parts partition the samples, train and test are complementary with matching labels, and classes are spread evenly over folds; each fold carries its own correct repeat/fold/split index and the dataset's name, sizes and imbalance ratio. The folds written to the cache (json or pickle) hold the same data as the folds produced in memory are stable over repeated calls, and are rewritten when missing or damaged.",
  ["inputs", "configurations", "histories"], "datasets x validator settings x serialisation x call order",
  "tests check the number of files for one dataset",
  [E + "_folding.py", B + "_base.py"], [("Folding.fold, cache_foldings, folding_files", E + "_folding.py"), ("dump_dict/load_dict", B + "_base.py")], observe=["Folding.fold", "Folding.folding_files"])
p("C18", "A sampling job never leaks test data and treats train and test alike",
  "The result of a sampling job holds training data that are the oversampler's output on the scaled training fold alone and test data that are the test fold passed through the same scaler and the oversampler's transform, in order and with unchanged labels: altering test rows never changes the training part and vice versa only through the scaler and transform. If the oversampler fails with a value or runtime error, or times out, the job still yields the scaled but not oversampled training fold and the equally scaled test fold, with the error recorded.",
  ["inputs", "configurations", "fault_sequences"], "folds x oversamplers x scalers x injected failures x cached/uncached",
  "tests only check that a job returns something or a file appears",
  [E + "_sampling.py", E + "_evaluation.py"], [("SamplingJob.do_oversampling, timeout", E + "_sampling.py")], observe=["SamplingJob.do_oversampling", "SamplingJob.timeout"])
p("C19", "Cached evaluation is equivalent to uncached, resumable and damage-tolerant",
  "For any datasets (labels 0/1), oversamplers and classifiers, the evaluation results (labels, predictions, scores, fold indices per oversampler, classifier and fold) are the same whether computed in memory or through the cache, with json or pickle serialisation, sequentially or in parallel, and each combination appears exactly once. A classifier that fails with a value or runtime error or gives no usable two-class probabilities scores as all zeros with the error recorded. Running again on an existing cache, after removing any of its files, or after truncating or emptying any of them (as an interrupted run leaves them) yields the same results as the first run.",
  ["configurations", "histories", "crash_points"], "run configurations x interruption points (any subset of cache files deleted, truncated or emptied)",
  "tests run one configuration into an empty cache",
  [E + "_functions.py", E + "_sampling.py", E + "_evaluation.py", B + "_base.py"], [("target_filename_damaged", E + "_sampling.py, _evaluation.py"), ("check_if_damaged", B + "_base.py"), ("cached_evaluation", E + "_functions.py")], observe=["evaluate_oversamplers"])
p("C20", "The process pool runs every job exactly once and isolates failures",
  "For any list of jobs, number of workers and timeout, the pool returns one entry per job in job order, runs every job exactly once and returns its result unaltered whatever its size, never running more jobs at once than configured. A job that crashes, raises or exceeds the timeout yields its own timeout value and affects no other job, and no worker process survives the call.",
  ["schedules", "fault_sequences", "configurations"], "job lists x durations x sizes x crashes x n_jobs x timeout",
  "tests run a few sleeping jobs",
  [E + "_parallelization.py"], [("ThreadTimeoutProcessPool.execute/apply, process_manager", E + "_parallelization.py")], observe=["ThreadTimeoutProcessPool.execute", "apply"])
p("C21", "Aggregation and model selection report the true means and pick the best",
  "For any set of evaluation results, the aggregated table has exactly one row per dataset, oversampler, oversampler parameters, classifier and classifier parameters, with the mean and standard deviation of every score over the folds of exactly that combination, undefined scores skipped; summaries of cached results have one entry per combination, too, including techniques without simplex sampling. Model selection returns an oversampler and a classifier with exactly the parameters of a combination whose mean of the requested score is maximal.",
  ["inputs", "configurations"], "result sets (missing scores, ties, parameter variants) x scores",
  "tests check that the call returns",
  [E + "_functions.py", E + "_processing.py"], [("do_parse_results, model_selection, _pivot_best_scores", E + "_functions.py"), ("create_summary", E + "_processing.py")], observe=["evaluate_oversamplers", "model_selection", "create_summary"])
p("C22", "Queries return exactly the oversamplers that satisfy the criteria",
  "Queries for oversamplers return, without duplicates and in a stable order, exactly those techniques that satisfy the query: acceptance of a proportion parameter, metric learning support, multiclass suitability as declared by the categories, simplex sampling options; asking for the n quickest returns the n of them with the smallest recorded runtimes. Generated parameter combinations are distinct valid combinations of the requested classes, at most the requested number per class, all of them when fewer exist, reproducible from the seed, and accepted by the evaluation functions.",
  ["configurations", "inputs"], "query arguments x n_quickest x seeds x class subsets",
  "tests check non-emptiness",
  ["smote_variants/queries/_queries.py", "smote_variants/queries/_runtimes.py"], [("get_*_oversamplers, generate_parameter_combinations", "_queries.py")], observe=["query functions"])
p("C23", "An oversampling classifier equals sampling followed by the classifier",
  "For any oversampler, classifier and data, fitting the combined classifier and predicting equals oversampling the training data with an equal oversampler, fitting an equal classifier on the result and predicting the equally transformed inputs; it predicts a label of the training data for every row. It can be cloned, re-parameterised and used in pipelines and grid search with the same outcome as a freshly built one.",
  ["inputs", "configurations", "histories"], "datasets x oversamplers x classifiers x set_params histories",
  "tests fit one combination",
  ["smote_variants/classifiers/_oversamplingclassifier.py", "smote_variants/classifiers/_mlpclassifierwrapper.py"], [("fit/predict/predict_proba/set_params", "_oversamplingclassifier.py")], observe=["fit", "predict", "predict_proba", "set_params"])
p("C24", "Dictionaries survive the cache files; damage is always recognised",
  "Writing a dictionary to a json or pickle cache file and reading it back gives the same contents (arrays listed as such come back as equal arrays; arrays keep shape and values), over an existing file as well. A missing, emptied or truncated file is always recognised as damaged, an intact one never, and merging, comparing and defaulting of parameter dictionaries follow their definitions without altering their arguments.",
  ["inputs", "crash_points"], "dictionaries x serialisations x every truncation point",
  "tests write one dictionary and one damaged json file",
  [B + "_base.py"], [("dump_dict, load_dict, check_if_damaged", B + "_base.py"), ("equal_dicts, coalesce_dict, coalesce", B + "_base.py")], observe=["dump_dict", "load_dict", "check_if_damaged", "equal_dicts", "coalesce_dict"])
p("C25", "Values outside the documented ranges are rejected, values inside accepted",
  "Every constructor raises ValueError for parameter values outside the documented range (negative proportions, neighbour counts below the minimum, probabilities outside [0, 1], unknown modes, invalid job counts, unusable random states) and accepts every value inside it, boundaries included. The range-checking helpers accept a value if and only if the relation they are named after holds.",
  ["configurations", "inputs"], "constructor parameters x values around the boundaries",
  "tests try a single invalid value for some classes",
  [B + "_base.py", O + "*.py"], [("check_* helpers", B + "_base.py"), ("constructor checks", O + "*")], observe=["constructors"])
p("C26", "Class statistics, densities, random draws and array helpers are exact",
  "For labels of two classes of any type (numbers, strings, booleans, small integer types) the minority and majority label, the class counts and the number of samples to generate (integer part of proportion times the difference) are determined correctly. Normalised densities sum to one, keep proportions, treat undefined entries as zero and fall back to uniform; safe division, mode, simplex volumes, array indexing by rows, cartesian product, row-wise weighted choice, neighbour combinations and deterministic quotas equal their definitions. Points drawn between points lie on the segment (or in the box), gaussian jitter has the given deviations, and the configuration switches for warnings hold what was last set.",
  ["inputs", "histories"], "label types x counts x proportions; arrays incl. zeros, NaN, inf, single elements; sequences of configuration calls",
  "tests check two or three constants per helper",
  [B + "_base.py", B + "_oversampling.py", B + "_simplexsampling.py", B + "_scipyport.py", "smote_variants/config.py"],
  [("class_label_statistics, det_n_to_sample", B + "_base.py"), ("fix_density, safe_divide, sample_between_points*", B + "_base.py"), ("simplex_volumes, array_array_index, cartesian_product, vector_choice, deterministic_sample", B + "_simplexsampling.py"), ("mode", B + "_scipyport.py")], observe=["StatisticsMixin", "fix_density", "simplex helpers"])
V = "smote_variants/visualization/_visualization.py"
p("C27", "The visualisation labels and draws every point truthfully",
  "For any original and resampled data and any choice of two coordinates, the labeling used by the plots has exactly one row per distinct (projected) point and class with the true numbers of occurrences before and after, flags a point as new, removed, increased, decreased or unchanged accordingly, and names label 0 majority and further labels consistently. The figures draw exactly the points of the data (original, added, removed ones), with one legend entry per kind, marker sizes growing with the counts, and in the comparison the title and points of each of the two datasets on its own axes. Neither the data nor the labelings passed in are modified, and labelings can be reused for several figures.",
  ["inputs", "histories"], "datasets with coinciding points and projections x resamplings (kept, dropped, duplicated, relabelled, new points) x coordinates x repeated plotting",
  "tests only call the plotting functions",
  [V], [("labeling of points", V), ("figures", V)], observe=["visualize_clusters", "plot_*"])
p("C28", "Samples are generated where, and as often as, each technique's definition says",
  "The places of generated samples follow the published selection rule of the technique, with the parameters in effect: which minority samples are bases (danger, safe, border, not noise, in a dense cluster, ...), which of their nearest neighbours are partners (all k of them, the nearest included), with which class, and how samples are shared among the pairs where the definition fixes the weights (uniform, by local majority share, by density, by cluster). Covered: SMOTE, ADASYN, Borderline_SMOTE1/2, ANS, NRSBoundary_SMOTE, MSMOTE, Safe_Level_SMOTE, LN_SMOTE, SMOTE_OUT, SMOTE_Cosine, Selected_SMOTE, distance_SMOTE, Random_SMOTE, ProWSyn, MWMOTE, SDSMOTE, MCT, Edge_Det_SMOTE, Assembled_SMOTE, cluster_SMOTE, kmeans_SMOTE, DBSMOTE, SMOBD, OUPS, G_SMOTE, SN_SMOTE, ADOMS, NDO_sampling, LVQ_SMOTE, Gaussian_SMOTE, NT_SMOTE, SMMO, AND_SMOTE, NRAS, Lee, ISMOTE, SOI_CJ, CBSO, CURE_SMOTE, VIS_RST, SMOTE_AMSR, DE_oversampling, CCR, SYMPROD, V_SYNTH, polynom_fit_SMOTE_mesh, Supervised_SMOTE, MDO, SSO, ROSE, RWO_sampling, SMOTEWB, SOMO, CE_SMOTE, TRIM_SMOTE, GASMOTE, ASMOBD, A_SUWO, PDFOS, SMOTE_PSO, LLE_SMOTE, MOT2LD, KernelADASYN. ROSE and RWO_sampling draw from the mixture of normal distributions they are defined by.",
  ["inputs", "configurations"], "the listed techniques x parameters x datasets without distance ties; up to 12000 samples per call for the shares",
  "no test looks at which pairs of samples a technique interpolates; results with wrong neighbours or weights look like any others",
  [O + "*.py", B + "_simplexsampling.py"], [("sampling_algorithm of the technique", O + "*"), ("simplex choice and weights", B + "_simplexsampling.py")], observe=["sample"])
p("C29", "Techniques with a fixed outcome produce exactly what their definition names",
  "Where the definition determines the result (up to the draws of a seeded building block), it is exactly that: SPY relabels the majority neighbours of the minority samples with few majority neighbours; Stefanowski amplifies, relabels and removes by the 3- and 5-nearest-neighbour rules of its three strategies; SMOTE_D places its deterministic fractions; the star, bus and polynomial topologies of polynom_fit_SMOTE; AHC adds the centroids of all Ward merges and replaces the majority by k-means centers; SUNDO drops one sample of each of the closest majority pairs; DSMOTE relabels the most abnormal minority samples and adds geometric means of three; SMOTE_ENN, SMOTE_TomekLinks, SL_graph_SMOTE, ISOMAP_Hybrid, E_SMOTE, SMOTE_IPF (majority and consensus voting), SVM_balance and NEATER equal their composition from SMOTE (with the same seed and parameters), filter, embedding, feature mask, ensemble or replicator dynamics; SMOTE_RSB and MSYN keep the candidates their similarity or margin criterion selects; Gazzah keeps the majority samples within the deviation radius of the principal plane; DSRBF, SMOTE_FRST_2T, AMSCO and SMOTE_PSOBAT keep and generate what their criterion says.",
  ["inputs", "configurations"], "the listed techniques x parameters x datasets without ties",
  "no test compares a result of these techniques with anything",
  [O + "*.py"], [("sampling_algorithm of the technique", O + "*")], observe=["sample"])

with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
