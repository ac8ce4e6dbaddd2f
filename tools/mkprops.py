"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/mkprops.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import CHECKS

P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, note=None, state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None,
         "observe_at": ["the public Python API (polars_ds)"]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, tech, note, na))


p("P01", "String edit distances and similarities equal their definitions",
  "For every pair of strings the Levenshtein, optimal-string-alignment, Damerau-Levenshtein, longest-common-subsequence, Hamming, Indel (fuzz ratio), Jaro and Jaro-Winkler expressions return exactly the value their definition gives on the two strings' characters, and the bounded filters return whether that distance is within the bound. The answer is null exactly when either string is null (or, for unpadded Hamming, the lengths differ), and does not depend on whether the second operand is a column or a single string, on parallel evaluation, on grouping, or on how the column is chunked.",
  ["inputs", "configurations"], "all strings (any Unicode, any length, null), all bounds and prefix weights, scalar or column operand, parallel flag, chunk layouts, group contexts",
  "the tests compare a dozen short ASCII pairs; nothing covers strings over 64 characters (where the block algorithms start), the single-string path of most similarities, nulls in parallel, or non-ASCII text",
  ["src/str_ext/levenshtein.rs", "src/str_ext/osa.rs", "src/str_ext/lcs_seq.rs", "src/str_ext/hamming.rs", "src/str_ext/jaro.rs", "src/str_ext/fuzz.rs", "src/str_ext/generic_str_distancer.rs", "python/polars_ds/exprs/string.py"],
  [("scalar (batched) and column paths, parallel splitting", "src/str_ext/generic_str_distancer.rs"), ("split of the rows among threads", "src/utils/mod.rs split_offsets")])

p("P02", "N-gram set similarities, nearest word and vocabulary matching are exact",
  "Jaccard, overlap, Sorensen-Dice and Tversky similarities return the formula's value on the two sets of n-byte substrings (a shorter string being its own only substring), for any n, weights, nulls, scalar or column operand and parallel flag. The nearest-string query returns the first string at the least distance within the threshold and null when there is none, and vocabulary matching is true exactly when the average, all or any of the similarities to the vocabulary reaches the threshold.",
  ["inputs", "configurations"], "all strings and nulls, substring sizes, weights, thresholds, metrics, strategies, scalar or column operand, parallel flag, chunk layouts",
  "the tests compare a handful of ASCII pairs at n=2 or 3 and never strings shorter than n, repeated substrings, ties between candidates, or null candidates",
  ["src/str_ext/mod.rs", "src/str_ext/str_jaccard.rs", "src/str_ext/overlap.rs", "src/str_ext/sorensen_dice.rs", "src/str_ext/tversky.rs", "src/str_ext/nearest_str.rs", "python/polars_ds/exprs/string.py"],
  [("set construction", "src/str_ext/mod.rs str_set_sim_helper"), ("search with a shrinking cutoff", "src/str_ext/nearest_str.rs")])

p("P03", "Text cleaning and tokenising follow their rules on every string",
  "Removing non-ASCII characters or diacritics, collapsing whitespace, mapping words, extracting numbers, converting between naming cases, detecting stop words, tokenising and Unicode normalisation give, for every string, the result their documented rule prescribes, character by character, and null for null. Normalisation is idempotent and its composed and decomposed forms convert into each other.",
  ["inputs"], "all strings: any Unicode, empty, all-whitespace, overlapping or self-referential mappings, nulls, chunk layouts",
  "the tests fix a few example sentences; the rules concern arbitrary text, where empty strings, runs of separators, non-Latin text and mappings whose outputs are again keys decide",
  ["src/str_ext/str_cleaning.rs", "src/str_ext/inflections.rs", "src/str_ext/is_stopword.rs", "src/str_ext/snowball_stem.rs", "src/str_ext/snowball", "python/polars_ds/exprs/string.py"],
  [("cleaning plugins", "src/str_ext/str_cleaning.rs"), ("stop word table", "src/str_ext/consts.rs")])

p("P04", "Neighbour queries over a frame return exactly the true neighbours",
  "Every nearest-neighbour, within-radius and neighbour-count query over a frame returns, per row, exactly the rows that an exhaustive comparison of all pairwise distances selects: the k closest eligible rows in order of distance, the rows within the radius, or their number, under the chosen metric. Rows masked out are never returned as neighbours, rows with missing coordinates neither are neighbours nor have any, and derived quantities (k-th distance, neighbour averages, neighbour frequencies) are those of the same exact neighbour set.",
  ["inputs", "configurations"], "all point sets (ties, duplicates, collinear, missing values, any dimension including 16 and up), metrics, k, radii (scalar or per row), bounds, masks, parallel flag",
  "the tests compare with scikit-learn on random points in few dimensions, so ties, duplicates, boundary distances, nulls, masks with radii and high dimensions are not met",
  ["src/num_ext/knn.rs", "src/arkadia/kdt.rs", "src/arkadia/mod.rs", "src/arkadia/utils.rs", "src/arkadia/leaf.rs", "python/polars_ds/exprs/expr_knn.py"],
  [("branch and bound over the k-d tree", "src/arkadia/kdt.rs"), ("per-row dispatch, nulls and masks", "src/num_ext/knn.rs")])

p("P05", "A k-d tree object answers as the set of points added to it",
  "After any sequence of building, adding points and querying, a k-d tree answers each k-nearest, within-radius and count query exactly as an exhaustive search over all points added so far would, with each point's original row index and its distance under the tree's metric. Queries never change the tree, and sequential and parallel evaluation agree.",
  ["histories", "inputs"], "all histories of add and query calls, point sets with ties and duplicates, metrics, radii, bounds, k, parallel flag",
  "the tests build one tree and query it once; the guarantee is about every interleaving of additions (which split leaves) and queries",
  ["python/polars_ds/spatial.py", "src/arkadia/py_kdt.rs", "src/arkadia/kdt.rs", "src/arkadia/mod.rs"],
  [("leaf splitting on insertion", "src/arkadia/kdt.rs"), ("bounding boxes", "src/arkadia/kdt.rs")],
  state=[("points", "the sequence of points added so far", "OwnedKDT in src/arkadia/kdt.rs")])

p("P06", "Linear regression expressions solve the stated least-squares problem",
  "Ordinary, weighted, ridge and multi-target least squares return the unique coefficients that solve the normal equations of the stated (weighted, l2-penalised, optionally with an intercept that is not penalised) problem on exactly the rows the null policy keeps, with every solver giving the same answer on a well-conditioned problem; lasso and elastic net return coefficients meeting the optimality conditions. Predictions and residuals are those of the returned coefficients, aligned with the input rows, NaN where the policy drops the row.",
  ["inputs", "configurations"], "all well-conditioned designs and targets, weights, penalties, intercept flag, null placements and null policies, solvers, group contexts, numeric dtypes",
  "the tests compare with numpy or scikit-learn on one random design each; the guarantee ranges over null placements x policies x weights x penalties x solvers x output kinds",
  ["src/num_ext/linear_regression.rs", "src/linalg/lr_solvers.rs", "src/linalg/mod.rs", "python/polars_ds/exprs/expr_linear.py"],
  [("null policies", "src/num_ext/linear_regression.rs"), ("solvers", "src/linalg/lr_solvers.rs")])

p("P07", "Rolling and recursive regressions equal refitting on each window",
  "At every row, a rolling regression returns the coefficients of the regression on exactly the rows in its window (skipping incomplete rows when asked, and null while too few remain), and a recursive regression those of the regression on all rows so far, with the prediction being that of the same coefficients on the same row. An update never leaves a trace of a row outside the window, however long the history.",
  ["histories", "inputs"], "all sequences of rows, window sizes, minimum sizes, starting sizes, null placements, intercept flag, l2 penalties",
  "the tests check one random frame per function with full windows; the incremental inverse must be right after every history of additions, removals and skipped rows",
  ["src/num_ext/linear_regression.rs", "src/linalg/lr_online_solvers.rs", "python/polars_ds/exprs/expr_linear.py"],
  [("rank-one updates of the inverse", "src/linalg/lr_online_solvers.rs")],
  state=[("inverse and coefficients", "those of the rows in the window", "src/linalg/lr_online_solvers.rs")])

p("P08", "Linear model objects behave as the model last fitted, updated or loaded",
  "After any sequence of fitting, updating, loading and querying, a linear, online or elastic-net model's coefficients, intercept and predictions are those of the regression on the data it was last fitted on plus every later update, or of the values last loaded; an unfitted model says so and raises instead of answering. Fitting with missing values follows the stated policy, a rejected call leaves the model unchanged, and predicting on a frame equals predicting on the matrix of its feature columns.",
  ["histories", "inputs"], "all histories of fit, update, load and query calls, intercept flag, penalties, null policies, well-conditioned data",
  "the tests fit once and predict once; unfitted models, refits, rejected calls and sequences of updates are not exercised",
  ["python/polars_ds/linear_models.py", "src/pymodels/py_lr.rs", "src/linalg/lr_solvers.rs", "src/linalg/lr_online_solvers.rs"],
  [("fit state", "src/linalg/mod.rs"), ("null handling", "python/polars_ds/linear_models.py")],
  state=[("coefficients", "empty until fitted", "src/linalg/lr_solvers.rs")])

p("P09", "Regression reports state the inference statistics of that regression",
  "A regression report lists, for each feature (and the intercept), the least-squares coefficient, its standard error (classical, or the chosen heteroskedasticity-robust variant, or weighted), the t statistic and two-sided p-value of that ratio, and the confidence limits, together with the model's R2 and adjusted R2 over the rows used. All of these are those of one and the same regression.",
  ["inputs", "configurations"], "all well-conditioned designs, weights, error variants, intercept flag, null policies",
  "the tests compare one random design with statsmodels; R2 with incomplete rows, weights and the robust variants are not pinned down",
  ["src/num_ext/linear_regression.rs", "python/polars_ds/exprs/expr_linear.py", "src/stats_utils"],
  [("report", "src/num_ext/linear_regression.rs pl_lin_reg_report")])

p("P10", "Binary classification metrics equal their counting definitions",
  "Confusion counts and every ratio derived from them, precision/recall/TPR/FPR tables, ROC AUC, average precision, log loss and Matthews coefficient computed from actual labels and scores equal the values obtained by counting the rows on each side of each threshold. They depend only on the multiset of (actual, score) pairs, so reordering or grouping rows changes nothing, and degenerate inputs (one class, tied scores, zero denominators) give the documented value rather than an error.",
  ["inputs"], "all label and score columns: ties, one class only, thresholds at, above and below every score, large counts, row orders, group contexts",
  "the tests compare random untied scores with scikit-learn; ties across classes, single-class groups, extreme thresholds and large counts are not met",
  ["src/num_ext/tp_fp.rs", "python/polars_ds/exprs/metrics.py"],
  [("sorted cumulative counts", "src/num_ext/tp_fp.rs")])

p("P11", "Regression, ranking and multiclass metrics equal their definitions",
  "R2, adjusted R2, error means (absolute, squared, percentage, symmetric, Huber, log-cosh), multiclass ROC AUC with macro or weighted averaging, multiclass log loss, confusion matrices, fairness, normalised discounted cumulative gain, Gini, information value and stability indices equal their defining formula on the rows given. Weighted variants with constant weights equal the unweighted ones.",
  ["inputs", "configurations"], "all numeric columns, weights, class sets, strategies, bin counts, ties and zero denominators, group contexts",
  "the tests check one random frame for some of these and none for others",
  ["python/polars_ds/exprs/metrics.py", "src/num_ext/psi.rs", "src/num_ext/multi_class_metrics.rs", "python/polars_ds/exprs/stats.py"],
  [("metric expressions", "python/polars_ds/exprs/metrics.py")])

p("P12", "Hypothesis tests report the statistic and p-value of their definition",
  "The one- and two-sample t, Welch, F, chi-square, Kolmogorov-Smirnov, Mann-Whitney and normality tests return the statistic their definition gives on the non-missing values, and the p-value of that statistic for the stated alternative. P-values lie in [0,1], the two one-sided p-values are complementary, and exchanging the samples mirrors the answer.",
  ["inputs", "configurations"], "all numeric or categorical columns with ties, nulls, NaN and infinities, alternatives, significance levels, group contexts",
  "the tests compare a few random samples with scipy; ties, nulls and alternatives are barely covered",
  ["src/stats", "src/stats_utils", "python/polars_ds/exprs/stats.py"],
  [("test statistics", "src/stats"), ("distribution functions", "src/stats_utils")])

p("P13", "Association and location statistics equal their definitions",
  "Kendall tau-b, Xi, biweight midcorrelation, weighted correlation, covariance, variance and means, geometric and harmonic means and cosine similarities equal their defining formula on the values given. They are unaffected by the order of the rows wherever the definition is, symmetric wherever the definition is, and invariant under the monotone or affine changes their definition ignores.",
  ["inputs"], "all numeric columns with ties, nulls, constant values and positive weights, group contexts",
  "the tests check one random sample for some of these and the weighted ones not at all",
  ["src/stats", "python/polars_ds/exprs/stats.py", "python/polars_ds/exprs/num.py"],
  [("rank statistics", "src/stats"), ("weighted formulas", "python/polars_ds/exprs/stats.py")])

p("P14", "Time-series features equal their definitions on every series",
  "Run lengths and streaks, crossing and uniqueness counts, digit distributions, Lempel-Ziv complexity, entropies (approximate, sample, permutation), similar-window counts, autocorrelation-like statistics and change measures return the value their definition gives on the series in row order. Parallel evaluation, chunking and null policy never change it.",
  ["inputs", "configurations"], "all finite series, lengths from 0, ties, constant series, nulls where allowed, parameters, parallel flag, group contexts",
  "the tests compare a few series with tsfresh-like references; short series, ties and parallel evaluation are not covered",
  ["src/num_ext/ts_features.rs", "src/num_ext/entropy.rs", "src/num_ext/lempel_ziv.rs", "python/polars_ds/exprs/ts_features.py"],
  [("feature kernels", "src/num_ext")])

p("P15", "Numeric transforms equal their definitions on every input",
  "Greatest common divisor, least common multiple, convolution in every mode and method, trapezoidal integration, Jaccard similarity of columns and rows, isotonic regression, great-circle distance, next representable floats, Fourier transform and similar numeric expressions return the value their definition gives for each row or column. Nulls and scalar operands behave as broadcasting says, and neither the method, parallel evaluation nor chunking changes the answer.",
  ["inputs", "configurations"], "all numeric inputs, signs, zeros, lengths including kernels longer than blocks, modes, methods, parallel flag, chunk layouts",
  "the tests check one example for each mode; sign, zero, length and null combinations are not covered",
  ["src/num_ext/gcd_lcm.rs", "src/num_ext/convolve.rs", "src/num_ext/trapz.rs", "src/num_ext/jaccard.rs", "src/num_ext/isotonic_reg.rs", "src/num_ext/haversine.rs", "src/num_ext/fft.rs", "src/num_ext/float_extras.rs", "python/polars_ds/exprs/num.py"],
  [("numeric kernels", "src/num_ext")])

p("P16", "Combinations, products and random draws enumerate what they promise",
  "Combinations and Cartesian products of columns contain every combination exactly once, in the documented order, without mixing values of different rows. Every random generator returns one value per row inside the range of its distribution, null only where asked, the same values for the same seed, and statistics-driven bounds taken from the column itself.",
  ["inputs", "configurations"], "all column lengths including 0 and 1, subset sizes, unique flag, distributions and parameters, seeds, lengths",
  "the tests check one or two small lists and the sample mean of one draw",
  ["src/num_ext/iterators.rs", "src/stats/sample.rs", "python/polars_ds/exprs/expr_iter.py", "python/polars_ds/exprs/stats.py"],
  [("iteration", "python/polars_ds/exprs/expr_iter.py"), ("seeding", "src/stats/sample.rs")])

p("P17", "A pipeline applies exactly what it learnt, in order, to any frame",
  "A materialised pipeline applies its steps in the order they were added, using only parameters learnt from the frame it was fitted on, transformed by the earlier steps; the transformed frame does not depend on the values of other rows of the frame being transformed. Transforming changes neither the pipeline nor its input, the target and excluded columns are left alone, and a pipeline saved and loaded again transforms every frame identically, up to the last digits the JSON text of a learned float loses.",
  ["histories", "programs", "inputs"], "all sequences of steps, training frames and frames to transform, eager or lazy, with or without serialisation",
  "the tests run two or three fixed pipelines once; the guarantee is over all sequences of steps and all later frames",
  ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/modeling/_structures.py"],
  [("blueprint steps and fitting", "python/polars_ds/modeling/pipeline.py"), ("serialisation", "python/polars_ds/modeling/pipeline.py")],
  state=[("steps", "the fitted steps so far, in order", "Blueprint and Pipeline")])

p("P18", "Fitted transforms learn the right parameters and map values by them",
  "Imputation (also conditional and by linear regression), scaling, robust scaling, centring, winsorising, one-hot, rank-hot, target, weight-of-evidence and information-value encoding and polynomial features learn from the training column exactly the parameters their definition states (mean, median, mode, extremes, deviations, quantiles, categories, target statistics) and map every value by them. Categories or values never seen in training follow the documented default.",
  ["inputs", "configurations"], "all training and later columns with nulls, ties, unseen categories, constant columns, options of each transform",
  "the tests check the shape or one value of a few transforms on one dataset",
  ["python/polars_ds/modeling/transforms.py", "src/num_ext/target_encode.rs", "src/num_ext/woe_iv.rs"],
  [("transform parameters", "python/polars_ds/modeling/transforms.py"), ("target statistics", "src/num_ext/target_encode.rs")])

p("P19", "Sampling, splitting and partitioning neither lose nor duplicate rows",
  "Splitting a frame by ratios yields parts that are disjoint, together hold every row exactly once and have the stated sizes, separately within each stratum when stratifying; samples hold the stated number of distinct rows; partitions hold exactly the rows with their key, and merging them gives back the rows. The same seed reproduces the same result, and no input frame is changed.",
  ["inputs", "configurations"], "all frames, ratios, sample sizes, strata including tiny ones, seeds, partition keys, eager or lazy",
  "the tests check the sizes of a split of one frame; disjointness, completeness per stratum, rounding and reproducibility are over all sizes and ratios",
  ["python/polars_ds/sample_and_split.py", "python/polars_ds/partition/__init__.py"],
  [("row selection", "python/polars_ds/sample_and_split.py"), ("partition map", "python/polars_ds/partition")])

p("P20", "Answers do not depend on evaluation context or physical layout",
  "Evaluating an aggregating or row-wise expression within groups or windows gives for each group what evaluating it on a frame of only that group's rows gives; evaluating it lazily, in parallel, on a differently chunked or sliced column, on an equal column of another numeric type, or on inputs that are themselves expressions (filtered or sliced columns) gives the same answer as on the plain column of those values.",
  ["configurations", "inputs", "schedules"], "all expressions of the library, group structures, chunk layouts, slices, parallel flags, lazy or eager evaluation, thread schedules",
  "the tests evaluate almost everything in one select on one contiguous frame",
  ["src/utils/mod.rs", "src/num_ext", "src/str_ext", "python/polars_ds/_utils.py", "python/polars_ds/exprs"],
  [("thread splitting", "src/utils/mod.rs"), ("elementwise and scalar flags", "python/polars_ds/_utils.py")])

p("P21", "The declared lazy schema is the schema of the collected result",
  "For every expression and every input type it accepts, the column names and types that a lazy query announces before running are those of the frame it produces, including the fields of structured results, in select, group and window contexts, when further steps follow, and for fitted pipelines over lazy frames.",
  ["programs", "inputs", "configurations"], "all expressions, input dtypes, empty and one-row frames, select, group and window contexts",
  "no test compares a lazy schema with a collected one",
  ["src", "python/polars_ds/exprs"],
  [("declared output types", "polars_expr output_type attributes in src")])

p("P22", "The NumPy-style compatibility layer gives the same answers as expressions",
  "Every function of the compatibility layer, called on NumPy arrays, Polars or pandas series or other array-likes, returns a Polars Series holding the value of the corresponding expression evaluated on a frame of those columns, whatever mix of containers holds them (strided, reversed or read-only arrays, series in chunks, without a name or of the same name) and whether they are passed by position or keyword; plain values are parameters, NumPy scalars included, and the inputs are left as they were.",
  ["inputs", "programs"], "all exported functions, argument containers (NumPy arrays, series, array-likes), keyword and positional forms",
  "the tests call a few of the several dozen functions, each in one way",
  ["python/polars_ds/compat", "python/polars_ds/_utils.py"],
  [("argument wrapping", "python/polars_ds/compat/__init__.py")])

p("P23", "Data inspection reports facts that hold of the frame",
  "What the data inspection object says of a frame is so: the lists of constant, binary, probability-like, k-distinct, mostly-null and discrete columns hold exactly the columns their definitions pick, however often they are asked and whatever the caller does with a list it was given; the profiles, string statistics and special value counts are those of the columns; a row keeps exactly the rules it breaks (and a column set its verdict); correlations of nulls and of values are the pairs' own; and the dependency report and drawing give each pair's conditional entropy and exactly the dependencies within the threshold.",
  ["inputs", "histories", "programs"], "all frames of numeric, string, boolean and categorical columns with nulls and non-finite values, thresholds, subsets, rules, and sequences of questions to one object",
  "the tests cover a handful of the inspection methods, on one fixed frame each",
  ["python/polars_ds/eda/diagnosis.py", "src/num_ext/cond_entropy.rs"],
  [("column inference", "python/polars_ds/eda/diagnosis.py infer_*"), ("rules", "python/polars_ds/eda/diagnosis.py row_validation/col_validation"),
   ("profiles", "python/polars_ds/eda/diagnosis.py numeric_profile/str_stats"), ("dependency graph", "python/polars_ds/eda/diagnosis.py infer_dependency/plot_dependency")])

p("P24", "Plots draw the data they are given",
  "A drawing shows what the data say: a ROC curve starts at the origin and passes through the true and false positive rates of every threshold, and its label is the area under it, rounded; a calibration curve has, per quantile bin of the score, the mean score and the share of positives; the regression line and its printed equation are the least-squares (or weighted least-squares) line of the complete rows, whatever number of points is displayed; the component scatter is that of the rows passing the filter with their own colours; a distribution shows exactly the rows asked for, with their percentiles, mean and share of bad values, overall or per group; thinning shows some of the points and no others; and calls that make no sense are refused.",
  ["inputs", "programs"], "all scored rows with ties and either class, all numeric columns with nulls and non-finite values, weights, limits, bounds, filters and ways of passing the same data",
  "the tests draw nothing",
  ["python/polars_ds/eda/plots.py", "python/polars_ds/eda/diagnosis.py"],
  [("curves", "python/polars_ds/eda/plots.py plot_roc_auc/plot_prob_calibration"), ("regression line", "python/polars_ds/eda/plots.py plot_lin_reg"),
   ("scatter of components", "python/polars_ds/eda/plots.py plot_pca"), ("distributions", "python/polars_ds/eda/plots.py plot_feature_distr, python/polars_ds/eda/diagnosis.py plot_feature_distr")])

ids = [x[0]["id"] for x in P]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x, *_ in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
checks, na = [], []
for x, tech, note, why in P:
    i = x["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "technique": CHECKS[i].get("technique", "TLA+ specification model-checked with TLC; implementation traces validated against it by TLC"),
                       "level": "model_checking", "level_note": CHECKS[i].get("note", "exhaustive on the specification within small constants; the implementation is judged on the specification's own small-scope inputs and on seeded larger ones")})
    else:
        na.append({"property": i, "reason": why or "no check registered yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
