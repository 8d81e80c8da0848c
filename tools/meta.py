"""Texts of the properties: one call of P() each.  tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, note=note, na=na))


KNN = ["src/arkadia/kdt.rs", "src/arkadia/arkadia_any.rs", "src/arkadia/utils.rs", "src/num_ext/knn.rs", "src/pymodels/kdtree.rs",
       "python/polars_ds/exprs/expr_knn.py", "python/polars_ds/spatial.py"]

P("P01", "k-nearest-neighbour answers equal brute force",
  "For every set of points, query point, k, distance (l1, l2, sql2, inf) and maximum bound, the kNN expressions and KDTree.knn return the min(k, number in bound) points with the smallest distances, in non-decreasing order of distance, with the distances reported being the true ones; which of several equidistant points is chosen is unspecified, and a bound includes points exactly at it. "
  "With an epsilon each distance returned is at most epsilon above the true one. The derived expressions (distance from the k-th neighbour, weighted and unweighted neighbour averages, frequency counts, is_knn_from) agree with that answer.",
  "inputs configurations", "all point sets, insertion orders, dimensions, metrics, k, bounds and epsilons; bounded exhaustively below",
  "The existing tests compare one or two random clouds; splits at duplicated values, ties at the bound, leaf overflow and pruning on one side only show for particular point sequences.",
  KNN, [("tree descent and pruning by the bounding box", "src/arkadia/kdt.rs knn_one_step"), ("insertion and splitting of leaves", "src/arkadia/kdt.rs add / split"),
        ("bounded insertion into the answer list", "src/arkadia/utils.rs"), ("answer lists per row", "src/num_ext/knn.rs")],
  "Explicit enumeration of every insertion sequence/point set in the stated space on the real tree, each answer compared with the brute-force model; small-scope plus sizes around every leaf capacity, not an unbounded proof.")

P("P02", "Radius queries and neighbour counts equal brute force",
  "For every set of points and every positive radius (one radius or one per row), the radius expressions and KDTree.within, within_count and within_radius return exactly the points (or their number) whose distance is at most the radius, sorted by distance when asked to. "
  "The distances returned are the true ones, frequency counts and within_dist_from agree with brute force, and a scalar radius means the same as a column filled with it.",
  "inputs configurations", "all point sets, radii (positive, boundary values included), metrics, dimensions and the sort / return_dist switches",
  "Tests look at a handful of radii that hit no point exactly; boxes wholly inside or outside the radius are pruned by different code.",
  KNN, [("radius descent", "src/arkadia/kdt.rs within_one_step / within_count_one_step"), ("scalar and per-row radius", "src/num_ext/knn.rs, src/pymodels/kdtree.rs")],
  "Exhaustive small insertion sequences and pattern x size x dimension x metric products on the real tree, against brute force.")

P("P03", "A KDTree answers for exactly the points added so far",
  "After any history of building a KDTree, adding blocks of points and querying, every query answers for exactly the union of the points added, with row numbers in the order of insertion; a rejected addition leaves the tree as it was; queries of another dimension than the tree's are refused. "
  "The memory layout of the arrays given (C or Fortran order, strided, non-contiguous) makes no difference.",
  "histories inputs", "all operation histories up to the bound, over initial trees, blocks and memory layouts",
  "Tests build a tree once and query it once; incremental growth and failed additions are never replayed.",
  ["src/pymodels/kdtree.rs", "src/arkadia/kdt.rs", "python/polars_ds/spatial.py"], [("incremental addition", "src/pymodels/kdtree.rs add"), ("leaf splitting", "src/arkadia/kdt.rs")],
  "All operation sequences up to the depth are executed on the real object and observed after every step.")

P("P04", "Rows with masks, nulls or NaNs are left out of neighbour queries exactly",
  "In the neighbour expressions a row whose feature is null or NaN is never a neighbour and gets a null answer; a data mask restricts which rows can be neighbours, an evaluation mask which rows are answered, a null in a mask counting as false. "
  "All other rows get exactly the answer over the remaining rows, also when no row remains.",
  "inputs", "all three-valued mask combinations and all sets of rows with missing features on small frames, mask layouts on larger ones",
  "Tests use one mask; the positions of masked rows shift indices between the full frame and the compacted matrix.",
  ["src/num_ext/knn.rs", "python/polars_ds/exprs/expr_knn.py"], [("compaction and re-expansion of rows", "src/num_ext/knn.rs")],
  "Every mask/null pattern on every small frame is run on the real expressions.")

P("P05", "parallel=True never changes a result",
  "For every expression and every query method of KDTree that accepts it, parallel=True returns the same values, nulls and row order as parallel=False (up to rounding in floating point sums), whatever the number of rows, the size of the thread pool, the nulls in the columns and the chunks the columns come in.",
  "schedules inputs configurations", "all expressions taking parallel x all lengths up to the bound x thread-pool sizes x null patterns x pairs of chunk boundaries",
  "The test-suite runs parallel code on one length and one pool size; the code splits work at len / threads with a remainder, per expression.",
  ["src/utils/mod.rs", "src/str_ext", "src/num_ext/knn.rs", "src/num_ext/convolve.rs", "src/num_ext/entrophies.rs", "src/num_ext/subseq_sim.rs"],
  [("splitting into offsets", "src/utils/mod.rs split_offsets"), ("parallel branch of each expression", "src/str_ext/*.rs, src/num_ext/*.rs")],
  "Every length in the range under every pool size: all partitions the splitting code can make there are enumerated; the order in which pool threads run a partition is left to the scheduler, the tasks share no mutable state.")

P("P06", "Results do not depend on chunking, laziness, slices or the grouping context",
  "For every expression the result on given rows is the same whether the columns are one chunk or many, a slice or a filtered part of a larger table, evaluated eagerly, lazily (with filters, slices and reversal before or after) or by the streaming engine, and expressions that work row by row give for each row what they give for that row alone. "
  "In group_by().agg and over() each group gets what the expression returns on that group's rows alone, one value per group for aggregations and one row per row for row-wise results.",
  "inputs configurations programs", "all expressions x all chunk layouts of small tables x query shapes x assignments of rows to groups",
  "Tests evaluate each expression on one freshly built, single-chunk frame in select.",
  ["python/polars_ds/_utils.py", "python/polars_ds/exprs", "src/num_ext", "src/str_ext", "src/stats"],
  [("plugin flags (elementwise, scalar, length changing)", "python/polars_ds/exprs/*.py pl_plugin"), ("rechunking before slices are taken", "src/**.rs cont_slice")],
  "All chunk compositions and group assignments in the bound; the per-rows result in a plain select is the reference (its values are the subject of the other properties).")

P("P07", "Declared output names and types are those returned",
  "For every expression, whenever a lazy query over it can be collected, the column name and the data type (including struct fields and list element types) that collect_schema declares are those of the collected column, for every supported input type, and with nulls, single rows and empty tables. "
  "On tables of the documented input types select, with_columns, group_by and over succeed.",
  "inputs configurations", "all expressions x numeric input types x table shapes x contexts",
  "Tests collect eagerly and look at values only.",
  ["src/utils/mod.rs", "src/num_ext", "src/str_ext", "src/stats", "python/polars_ds/exprs"], [("output type functions", "src/**.rs #[polars_expr(output_type...)]")],
  "Finite product of expressions, types, shapes and contexts, all of it executed. Categorical columns, and float32 for expressions polars itself mistypes, are left out.")

LIN = ["src/num_ext/linear_regression.rs", "src/num_ext/linear_regression_f32.rs", "src/linalg/lr_solvers.rs", "python/polars_ds/exprs/expr_linear.py"]
ONL = ["src/linalg/lr_online_solvers.rs"]

P("P08", "Linear regressions are the least squares solutions they claim to be",
  "Wherever the solution is unique, lin_reg (and simple_lin_reg) returns the coefficients minimising the (weighted) sum of squared residuals plus l2_reg times the squared coefficients, the bias last and not penalised, whichever solver is asked for and whatever the columns are called; predictions and residuals belong row by row to them, and several targets at once give what each gives alone (fields target_i, target_i_pred, target_i_resid). "
  "Null policies: skip leaves out rows with any null, zero / one / a number fill features and leave out rows with a null target, left-out rows get NaN predictions and residuals, raise refuses nulls, several targets refuse null targets; with fewer rows left than features there is an error. "
  "lin_reg_w_rcond returns the singular values of the (ridge-augmented) design and the solution with those below rcond times the largest dropped. In float32 mode all of lin_reg is the same up to single precision. The older names (query_lstsq and its variants) return what the new ones do.",
  "inputs configurations", "all designs, targets, weights, penalties, solvers, null patterns and null policies; bounded exhaustively below",
  "Tests compare a few random well-behaved tables with numpy; null bookkeeping, bias and penalty combinations and small sizes are not sampled.",
  LIN, [("assembling the design and the null mask", "src/num_ext/linear_regression.rs series_to_mat_for_lstsq"), ("solvers", "src/linalg/lr_solvers.rs"), ("float32 copy", "src/num_ext/linear_regression_f32.rs")],
  "All small designs and all null patterns in the bound are run on the real expressions and compared with the normal equations; rank-deficient problems are claimed for lin_reg_w_rcond only, nulls in weights not at all.")

P("P09", "Lasso and elastic net solutions are optimal",
  "lin_reg with l1_reg > 0 and the ElasticNet class return coefficients that satisfy the optimality conditions of |y - Xb - b0|^2 / (2 rows) + l1 |b|_1 + l2 |b|^2 / 2 with the bias b0 unpenalised (to the precision that tol asks for); predictions are those of the coefficients, float32 mode agrees up to its precision, and null policies select and fill rows as for ordinary regression.",
  "inputs configurations", "all designs, targets, penalties, bias and null patterns within the bound",
  "One test compares one random design with scikit-learn; the iteration can stop early or divide by zero for particular designs only.",
  LIN, [("coordinate descent", "src/linalg/lr_solvers.rs faer_coordinate_descent")],
  "Optimality is checked directly (necessary and sufficient for this convex problem) on every design in the bound; nearly collinear designs, where coordinate descent runs out of iterations, are left out.")

P("P10", "Rolling and recursive regressions equal refitting",
  "rolling_lin_reg gives for each row the coefficients (bias last, not penalised) that lin_reg gives on the window of rows ending there, recursive_lin_reg those on all rows up to it, with the prediction for that row; rows before the first full window are null, and data shorter than the window gives nulls. "
  "With nulls: recursive skips rows (skip) or fills features (zero, one, a number) and leaves out rows with a null target, giving null there and before start_with usable rows; rolling uses the usable rows of each window and gives null where they are fewer than min_valid_rows (default: the number of features); raise refuses nulls. Windows need full rank for this; one that has too few usable rows does not disturb later ones.",
  "histories inputs configurations", "all sequences of complete, target-null and feature-null rows, window sizes, minimum sizes, bias and ridge",
  "The coefficients are updated incrementally, so an error depends on the whole sequence of rows before; tests roll over one complete random table.",
  LIN + ONL, [("Sherman-Morrison-Woodbury update", "src/linalg/lr_online_solvers.rs woodbury_step"), ("window bookkeeping", "src/linalg/lr_online_solvers.rs faer_rolling_skipping_lstsq"), ("alignment of rows", "src/num_ext/linear_regression.rs pl_recursive_lstsq, pl_rolling_lstsq")],
  "Every row-kind sequence in the bound, executed and compared with a refit of every window.")

P("P11", "Linear model objects follow their history",
  "After any history of fits (numpy, data frames, null policies), refused calls, feature names, restorations from values, and for OnlineLR additions, removals and weighted rows, LR, ElasticNet and OnlineLR report is_fit, coefficients and bias of the last successful fit (for OnlineLR of the regression with exactly those weighted rows, and its inverse), predict and predict_df with them, and a refused call changes nothing. "
  "Rows with NaN leave an OnlineLR unchanged; an OnlineLR restored from coefficients, bias and inverse goes on as the original would.",
  "histories", "all histories up to the depth over the operations listed in the check",
  "The classes have no tests of their own beyond single fits.",
  ["src/pymodels/py_lr.rs", "src/linalg/mod.rs", "python/polars_ds/linear_models.py", "src/linalg/lr_solvers.rs"] + ONL,
  [("state of a model", "src/linalg/mod.rs LinearRegression"), ("online update", "src/linalg/lr_online_solvers.rs OnlineLR"), ("null handling", "python/polars_ds/linear_models.py")],
  "Every operation sequence up to the depth is executed on the real objects next to a model of them.")

P("P12", "Regression reports state the textbook statistics",
  "lin_reg_report gives per feature (then __bias__) the coefficient, its standard error (classical or HC0-HC3; with weights that of weighted least squares), t = coefficient / error, the two-sided p value and the 95% interval of Student's t with rows - coefficients degrees of freedom, and r2 = 1 - RSS/TSS and adj_r2 = 1 - (1 - r2)(n - 1)/(n - p - 1), p features without the bias, over the rows used. Null policies select and fill rows as for the regression itself; float32 mode agrees up to its precision. LR.fit_df(show_report=True) prints the report of the model it fits.",
  "inputs configurations", "all full-rank designs, kinds of standard error, weights, null patterns and policies within the bound",
  "One test compares one table with statsmodels; r2, robust errors, weights and nulls are not compared.",
  LIN, [("report", "src/num_ext/linear_regression.rs pl_lin_reg_report, pl_wls_report"), ("t distribution", "src/stats_utils/beta.rs")],
  "Exhaustive small designs and null assignments on the real expression against closed formulas evaluated with scipy.")

MET = ["python/polars_ds/exprs/metrics.py", "src/num_ext/tp_fp.rs"]

P("P13", "Ranking metrics of binary and multi-class scores equal their definitions",
  "query_roc_auc is the share of (positive, negative) pairs in which the positive scores higher, ties counting one half (NaN without a positive); query_gini is 2 AUC - 1; query_tpr_fpr lists every distinct score in ascending order with the shares of positives and of negatives scoring at least that. "
  "query_avg_precision is the step-wise sum of precision times recall gained over the distinct scores; query_binary_metrics gives precision, recall and F1 of predicting positive for score >= threshold (NaN precision when nothing is), average precision and AUC. query_multi_roc_auc is the macro or class-frequency-weighted mean of the one-against-rest AUCs. Row order does not matter and nulls are refused.",
  "inputs", "all label and score sequences (ties included) up to the bound, larger tables of tied blocks",
  "Tests compare random scores without ties with scikit-learn.",
  MET, [("sorted cumulative counts per distinct score", "src/num_ext/tp_fp.rs"), ("multi-class averaging", "python/polars_ds/exprs/metrics.py query_multi_roc_auc")],
  "Every sequence in the bound on the real expressions, against pair counting.")

P("P14", "Confusion matrices, their statistics and fairness ratios are right",
  "query_confusion_matrix counts rows with prediction = score > threshold, leaving out rows with a null label or score, and each of its further statistics is the textbook function of these four counts, NaN when its denominator is 0; query_mcc is the Matthews coefficient of the same counts. "
  "query_fairness is the absolute difference of the mean prediction of the two groups and query_p_pct_score the smaller of the two ratios of positive rates.",
  "inputs", "all label, score and null sequences up to the bound, all confusion matrices with small entries",
  "Tests compute one random matrix.",
  MET, [("counts and derived statistics", "src/num_ext/tp_fp.rs pl_confusion_matrix"), ("fairness", "python/polars_ds/exprs/metrics.py")],
  "Every small table and every small confusion matrix is executed.")

P("P15", "Losses and NDCG equal their definitions",
  "query_l1, l2, log_cosh, msle, smape, mape, huber_loss, l_inf, log_loss and cat_cross_entropy equal their formulas over the rows where both values are there (a normalised loss divides by the number of these rows); query_r2, adj_r2, wMAPE, mase and mad equal theirs on data without nulls. "
  "calculate_ndcg is the mean over the query groups with more than one item of DCG@k / ideal DCG@k (0 when the ideal is 0); with ignore_ties=False the scores are taken in descending order, with True tied items share their gains.",
  "inputs", "all pairs of small sequences over an alphabet with nulls, all groups, relevances, scores and k in the bound",
  "Tests compare single random columns; nulls on one side, ties and tiny groups are not sampled.",
  MET, [("loss expressions", "python/polars_ds/exprs/metrics.py")],
  "Every pair of sequences in the bound is evaluated and compared with the formula.")

STR = ["python/polars_ds/exprs/string.py", "src/str_ext"]

P("P16", "String distances and similarities equal their definitions",
  "For every pair of strings (compared by Unicode characters), str_leven, str_d_leven (unrestricted transpositions), str_osa, str_lcs_seq and str_hamming (null for different lengths, or padded) return the true distance, their normalised forms 1 - distance / longer length (1 for two empty strings), str_fuzz the normalised indel similarity, str_jaro and str_jw the Jaro and Jaro-Winkler similarities. "
  "A literal as second string means the same as a column filled with it, parallel makes no difference, and a null on either side gives null.",
  "inputs configurations", "all pairs of strings over small alphabets up to the length bound, and long strings around the block sizes of the bit-parallel algorithms",
  "Tests compare some dozen hand-picked pairs; the literal and the column branch use different code for each distance.",
  STR, [("scalar (batched) and column branch of each distance", "src/str_ext/levenshtein.rs, osa.rs, jaro.rs, lcs_seq.rs, hamming.rs, fuzz.rs"), ("shared helpers", "src/str_ext/generic_str_distancer.rs")],
  "Exhaustive pairs up to 5 to 8 characters on the real expressions against dynamic programming.")

P("P17", "Bounded filters, nearest strings, vocabularies and n-gram similarities are exact",
  "filter_by_levenshtein and filter_by_hamming are true exactly when the distance is at most the bound (Hamming: lengths equal too), null for nulls; str_nearest returns a non-null string of the column at smallest distance among those within the threshold, null if there is none; similar_to_vocab compares each string's normalised similarity (lv, dlv, osa, jw) to all, any or the average of the vocabulary with >= threshold. "
  "str_jaccard, str_sorensen_dice, str_overlap_coeff and str_tversky_sim are the set similarities of the byte n-grams of two non-empty strings (a shorter string being its own only gram); literal or column, parallel or not, and nulls give null.",
  "inputs configurations", "all pairs of short strings x bounds / n-gram sizes, all short columns x words x thresholds, all small vocabularies",
  "Tests look at a few examples per function; cut-offs exactly at the distance are not sampled.",
  STR, [("cut-off handling", "src/str_ext/levenshtein.rs, hamming.rs filters"), ("running best", "src/str_ext/nearest_str.rs"), ("gram sets", "src/str_ext/mod.rs str_set_sim_helper")],
  "Exhaustive enumeration on the real expressions; empty strings are left out for n-gram similarities (0/0).")

P("P18", "Text cleaning, stemming, case conversion and extraction are exact",
  "str_snowball is the English (Porter2) stem of a lower case word, the empty string for a number and, unless told otherwise, for a stopword; is_stopword is true exactly for the 178 listed words; to_camel_case, to_snake_case, to_pascal_case and to_constant_case rewrite words joined by space, _ or -, or by humps. "
  "normalize_string gives the Unicode normal forms, remove_diacritics the ASCII part of NFD, replace_non_ascii replaces each non-ASCII character, normalize_whitespace and map_words work on the whitespace separated words, extract_numbers finds the matches of \\d*\\.?\\d+ left to right (commas removed if asked, joined, or cast), str_tokenize the matches of its pattern, with stem=True their unique non-empty stems without stopwords. Nulls stay null.",
  "inputs", "all words over small alphabets, all assigned code points, all short strings over the relevant alphabets",
  "Tests check a few words each; the stemmer has some hundred rules and regions that a handful of words does not reach.",
  STR, [("stemmer", "src/str_ext/snowball, src/str_ext/snowball_stem.rs"), ("binary search in the stopword list", "src/str_ext/consts.rs, is_stopword.rs"), ("cleaning", "src/str_ext/str_cleaning.rs")],
  "Compared with an independent Porter2 implementation and Python's unicodedata and re on every string in the bound.")

NUM = ["python/polars_ds/exprs/num.py", "src/num_ext"]

P("P19", "Convolution, the real FFT and isotonic regression are exact",
  "convolve of a column with a kernel (list, Series or column; at least 2 finite values, no longer than the column, else an error) is their discrete convolution: full all n+m-1 values, valid those with full overlap (m-1 skipped), same n values after skipping (m-1)//2, left the first n, right all but the first m-1; nulls in the column take fill_value, non-finite kernel values are dropped, and direct, parallel and fft methods agree. "
  "rfft is the discrete Fourier transform of the column cropped or zero-padded to n: its first n//2+1 coefficients, or all n with return_full; nulls are refused. isotonic_regression is the weighted least-squares monotone fit, increasing or decreasing; nulls and non-positive weights are refused.",
  "inputs configurations", "all short columns and kernels over a small alphabet, all pairs of lengths up to the bound",
  "Tests compare one or two random columns per function; lengths at which padding, skipping or mirroring change are not sampled.",
  NUM, [("modes as slices of the full convolution", "src/num_ext/convolve.rs"), ("mirrored half for return_full", "src/num_ext/fft.rs"), ("pool adjacent violators", "src/num_ext/isotonic_regression.rs")],
  "Every word and every pair of lengths in the bound, against the defining sums and the max-min formula in rationals.")

P("P20", "PCA satisfies the equations of the singular value decomposition",
  "With X the features (each minus its mean when center is true), pca gives min(rows, features) pairs: the singular values of X in descending order, and orthonormal vectors v with X'X v = s^2 v; rows with a null are left out, before the means are taken. singular_values gives the same singular values, their squares over rows - 1 with as_explained_var, and shares of their sum with as_ratio. "
  "principal_components gives the first k columns of X V, in row order: pairwise orthogonal, of length s_i, with XX' z = s_i^2 z; all NaN when there are fewer rows than k; nulls and k outside 1..features are refused.",
  "inputs configurations", "all small integer matrices (rank-deficient ones included), a grid of sizes up to the bound, all positions of up to two nulls",
  "One test compares the component of one random matrix with scikit-learn.",
  NUM, [("SVD of the feature matrix", "src/num_ext/pca.rs"), ("centring", "python/polars_ds/exprs/num.py pca, singular_values, principal_components")],
  "Every small matrix is decomposed by the real expression and the defining equations are checked, so signs and bases of equal singular values do not matter.")

P("P21", "Elementwise numerics, column shortcuts, integration and Jaccard are exact",
  "trunc, fract, next_up, next_down (of floats), exp2, expit, logit (-inf at 0, inf at 1, NaN outside), sinc, gamma and digamma (positive arguments) equal the mathematical functions; xlogy is x ln y, 0 for x = 0 unless y is NaN; gcd and lcm are the non-negative ones; haversine is the great-circle distance on a sphere of radius 6371 km; nulls give null, a literal second operand equals a column of it. "
  "center, z_normalize, softmax and detrend (mean; least-squares line over the non-null positions), is_increasing/is_decreasing, l1/l2_sq/l_inf_horizontal, list_amax, integrate_trapz (by x or by a constant step; NaN with nulls or without rows) equal their formulas. jaccard_row and jaccard_col are |A and B| / |A or B| of the sets of elements; null is an element in rows, in columns only if count_null.",
  "inputs", "every exponent and the mantissa ends of doubles, a grid of all floats, all pairs of small integers, all small columns and multisets with nulls",
  "Tests compare a few ordinary values; nulls, one-row columns, boundary values and other types are not sampled.",
  NUM, [("typed dispatch", "src/num_ext/float_extras.rs"), ("scalar and column branches", "src/num_ext/gcd_lcm.rs, haversine.rs, trapz.rs"), ("hash sets", "src/num_ext/jaccard.rs")],
  "Enumerated values through the real expressions; bit-exact where the function is exact.")

P("P22", "Combinations and Cartesian products list exactly the right tuples in order",
  "combinations lists the k-combinations of the non-null values of a column, in lexicographic order of position (unique=True: of the sorted distinct values), refusing fewer than k values; product lists the pairs of non-null values of two columns, the first running slowest. The element type is kept, and within group_by each group has its own tuples.",
  "inputs", "all short columns with nulls for each numeric type and strings, all lengths and k up to the bound",
  "Tests look at one column and one k.",
  ["python/polars_ds/exprs/expr_iter.py", "src/num_ext/iterations.rs"], [("typed builders", "src/num_ext/iterations.rs get_combinations, get_product"), ("null handling", "python/polars_ds/exprs/expr_iter.py")],
  "Every small column on the real expression, against itertools.")

P("P23", "PSI, weight of evidence, information value and target encoding are exact",
  "psi reports per right-closed bin (the baseline's distinct n_bins quantiles, those leaving a bin without baseline dropped, then inf) the baseline and new shares, at least 0.0001, and (b - a) ln(b / a); non-finite values are left out; without return_report the sum of these. psi_w_breakpoints does so for given breakpoints, psi_discrete per category, null being one. "
  "woe and woe_discrete give ln of ((good + 1)/(goods + 2)) / ((bad + 1)/(bads + 2)) per quantile bin or category, info_value[_discrete] the terms (g - b) woe or their sum, rows with a null left out; target_encode gives per category a mean + (1 - a) prior, a = 1/(1 + exp(-(n - min_samples_leaf)/smoothing)), over rows with a target. Columns and Python lists give the same.",
  "inputs", "all short baselines, new columns, categories and targets with nulls within the bound",
  "Tests check one report each; ties, empty bins, nulls and categories present on one side only are not sampled.",
  NUM, [("bin search and shares", "src/num_ext/psi.rs"), ("smoothing", "src/num_ext/woe_iv.rs, target_encode.rs"), ("cleaning and binning", "python/polars_ds/exprs/num.py")],
  "Exhaustive small tables against direct counting.")

TS = ["python/polars_ds/exprs/ts_features.py", "src/num_ext"]

P("P24", "Entropies and complexities of columns equal their definitions",
  "query_sample_entropy is ln(B/A), A and B the pairs of windows of length m + 1 and m within r = ratio x std (ddof 0) in max norm, NaN for fewer than 2m rows or r = 0; query_approx_entropy is |phi(m) - phi(m + 1)|, phi(k) the mean log share of windows of length k within r = filtering_level x std (ddof 1; or unscaled). query_permute_entropy is the entropy of the ordinal patterns of n_dims values tau apart, query_entropy and query_cond_entropy those of the values, null being one; query_lempel_ziv counts the phrases of the LZ78 parse, or their ratio to the length. "
  "query_knn_entropy is digamma(n) - digamma(k) + ln c + d/n sum ln 2e, e the distance to the k-th other row (l2: c the volume of the ball of diameter 1; inf: c = 1), NaN for k or fewer rows; query_copula_entropy is minus that of average ranks / n, and query_cond_indep and query_transfer_entropy are the differences of copula entropies defining them. parallel changes nothing; run lengths below 2, tolerances of 0 and k, tau or lag below 1 are refused.",
  "inputs configurations", "all short series over a small alphabet, all permutations and bit strings up to the bound, a grid of lengths and parameters",
  "Tests compare a few series with other libraries; ties at zero distance, lags, short series and windows at the end are not sampled.",
  TS, [("windows and counts", "src/num_ext/entrophies.rs"), ("neighbour distances", "src/num_ext/entrophies.rs"), ("phrases", "src/num_ext/lempel_ziv.rs"), ("patterns", "python/polars_ds/exprs/ts_features.py query_permute_entropy")],
  "Every small series on the real expressions against quadratic-time definitions; tolerances exactly at a distance are left out.")

P("P25", "Time-series features equal their formulas for every numeric type",
  "For columns without nulls: query_mid_range, query_symm_ratio, query_abs_energy, query_mean_abs_change, query_mean_n_abs_max (of n or fewer values), query_cv, query_count_uniques (values occurring once), query_range_count (closed), query_cid_ce, query_auto_corr (normalized by (n - lag) variance, or the mean product), query_c3_stats, query_time_reversal_asymmetry_stats equal their formulas, without integer overflow. "
  "query_streak, query_longest_streak and query_avg_streak describe the runs (of true); query_first_digit_cnt and query_benford count leading digits 1 to 9 of non-null, finite, non-zero numbers. query_similar_count counts (or gives the share of) the windows at squared distance below threshold from the query, raw or both z-normalized (ddof 1), parallel or not; query_ar_coeffs is the least-squares fit on the lagged values, first lag first, then bias. Queries of one value or with nulls or longer than the column, unknown metrics, lags or n below 1 are refused.",
  "inputs", "all short series over a small alphabet, all short Boolean columns, leading digits of every power of ten in ten types, a grid of lengths",
  "Tests compare a few series; narrow integer types, ties, short series and query lengths around the vectorised block are not sampled.",
  TS, [("formulas as expressions", "python/polars_ds/exprs/ts_features.py"), ("digit counting", "src/num_ext/benford.rs"), ("windows", "src/num_ext/subseq_sim.rs")],
  "Every small series on the real expressions, against direct formulas.")

STA = ["python/polars_ds/exprs/stats.py", "src/stats", "src/stats_utils"]

P("P26", "Hypothesis tests give the statistic and p-value of their definitions",
  "Without nulls in the data, ttest_ind (Welch; Student for equal counts), ttest_1samp and ttest_ind_from_stats give the t statistic and its p-value for each alternative, leaving out non-finite values; normal_test gives the D'Agostino-Pearson test (20 or more finite values), f_test the one-way ANOVA F test of one or several columns over the groups (one group refused), chi2 the test of independence of two columns without correction (return_full as well), mann_whitney_u U with the tie-corrected, continuity-corrected normal p-value (1 if all values tie). "
  "ks_2samp gives the largest difference of the two distribution functions over finite values (more than 30 in each; with fewer 0 and NaN) and its threshold sqrt(-ln(alpha/2)/2 (n+m)/(nm)), with is_binary the largest difference between the two classes. All of them accept every numeric column type, rows in any order, and refuse unknown alternatives.",
  "inputs configurations", "all small samples over a small alphabet, all small contingency tables and group assignments, all alternatives, all numeric types",
  "Tests compare one random sample per test with scipy; ties, small samples, non-finite values, extreme statistics and narrow types are not sampled.",
  STA, [("test functions", "src/stats"), ("incomplete beta and gamma, normal distribution", "src/stats_utils"), ("columns given to the plugin", "python/polars_ds/exprs/stats.py")],
  "Every sample in the bound on the real expressions, against the definitions with scipy.special for the distribution functions. KS with exactly 30 values is not claimed.")

P("P27", "Correlations, weighted statistics and means equal their definitions",
  "kendall_tau is tau-b over the rows with neither null nor NaN (infinity the largest number; NaN with fewer than 2 rows), xi_corr Chatterjee's coefficient, bicor the biweight midcorrelation, corr dispatches to these, pearson and spearman and refuses other names. "
  "Without nulls, weighted_mean, weighted_var, weighted_cov (integer weights), weighted_corr, cosine_sim, and weighted_gmean equal their formulas for every numeric type without overflow; gmean and hmean are those of the values present.",
  "inputs", "all small pairs of columns over a small alphabet with nulls, NaN and infinities, all permutations up to the bound, all numeric types",
  "Tests compare one random pair with scipy; ties, missing rows and integer types are not sampled.",
  STA, [("merge-sort counts", "src/stats/kendall_tau.rs"), ("rank differences", "src/stats/xi_corr.rs"), ("formulas as expressions", "python/polars_ds/exprs/stats.py")],
  "Every small pair on the real expressions against quadratic-time definitions.")

P("P28", "Random columns obey their bounds, lengths, seeds and distributions",
  "random, random_int, random_str, random_binomial, random_exp and random_normal give one value per row of the frame, of the right type, within the bounds asked for (given as numbers or computed from a column) and following the distribution asked for; the same seed gives the same column, other seeds others, and values differ from row to row. "
  "random_null makes about the share asked for of a column null and changes nothing else, perturb adds uniform noise within half epsilon (or from 0 to epsilon), jitter and add_noise normal noise of the standard deviation asked for; impossible bounds and parameters are refused.",
  "inputs configurations", "all lengths up to the bound, all generators and a grid of parameters and seeds",
  "Tests check that one column was produced.",
  ["python/polars_ds/exprs/stats.py", "src/stats/sample.rs"], [("samplers", "src/stats/sample.rs"), ("bounds from expressions", "python/polars_ds/exprs/stats.py")],
  "Bounds, lengths and reproducibility are decided exhaustively over the grid; distributions by a fixed-seed Kolmogorov-Smirnov bound on long columns (draws without a seed with a margin that fails by chance less than once in 1e9).")

PIPE = ["python/polars_ds/modeling/pipeline.py", "python/polars_ds/modeling/transforms.py", "python/polars_ds/modeling/_structures.py"]

P("P29", "A pipeline applies what it learned in training, in order, to any frame",
  "Whatever the sequence of blueprint steps, Pipeline.transform on any frame having the input columns gives the result of the steps in order, each using only what it learned from the training frame as transformed by the steps before it (unseen categories, nulls and other rows notwithstanding); target and excluded columns are left alone as asked, the frames given are unchanged, and missing columns or steps are refused. "
  "Lazy input, return_lazy, separate=True, repeated use, pickling, saving to and loading from JSON, steps given as dictionaries, ensure_features_in/_out, lower- or upper-casing of names and materialising the same blueprint again all give the same frame, with exactly the feature names promised.",
  "programs histories inputs configurations", "all sequences of up to three steps from a catalogue of steps and arguments, over several frames, targets and exclusions",
  "Tests run one or two fixed pipelines on the frame they were trained on.",
  PIPE, [("learning step after step", "python/polars_ds/modeling/pipeline.py Blueprint.materialize"), ("steps", "python/polars_ds/modeling/_structures.py"), ("learned expressions", "python/polars_ds/modeling/transforms.py")],
  "Every sequence in the bound is materialised and run; the oracle is a row-wise model of each step in plain Python. Results the documentation leaves open (ties of a mode, statistics of no values) are not claimed.")

P("P30", "Each data set transform learns and applies exactly what it documents",
  "impute (mean, median, mode), conditional_impute, center, scale (standard, min_max, abs_max), robust_scale and winsorize (every quantile method), one_hot_encode (drop_first, separator), rank_hot_encode, woe_encode, iv_encode, target_encode, polynomial_features and linear_impute compute, on the columns chosen by name, expression or selector, the expressions with the statistics of the training column; applied to another frame they use those. "
  "Nulls are left out of statistics and stay null except where filled; categories not seen in training give zeros, or the default asked for.",
  "inputs configurations", "all short columns over a small alphabet with nulls in several types, all methods and a grid of quantiles and arguments",
  "Tests compare one frame with scikit-learn per transform.",
  PIPE, [("transform functions", "python/polars_ds/modeling/transforms.py")],
  "Every small column through the real transforms, against direct computation. Ties of a mode, constant columns, integers clipped at non-integers and null features in linear_impute are not claimed.")

P("P31", "Sampling, splitting and partitioning keep every row where it belongs",
  "split_by_ratio divides the rows among the parts with no row lost, repeated or changed, each part but the last having the whole number of its share of the rows; sample, volume_neutral and downsample give distinct rows of the frame, unchanged: as many as asked for (per category), all rows not meeting a condition of downsample being kept; random_cols gives distinct columns of those allowed. The same seed gives the same, unacceptable arguments are refused. "
  "A partition by columns is the groups of rows by their values, each in its order and addressable by its values joined by the separator; head and apply work on each part, a failing part being left out with a warning.",
  "inputs configurations", "all lengths up to the bound, all small assignments of rows to groups, a grid of ratios, counts and seeds",
  "Tests check one size for one ratio; rounding of sizes, empty parts, nulls in conditions and small groups are not sampled.",
  ["python/polars_ds/sample_and_split/sample_and_split.py", "python/polars_ds/partition/partition.py"],
  [("row ranges of the parts", "sample_and_split.py split_by_ratio"), ("conditions", "sample_and_split.py downsample, volume_neutral"), ("keys", "partition.py PartitionHelper")],
  "Every size and group assignment in the bound on the real functions; row numbers make each row identifiable.")
P("P32", "The compat layer computes what the expressions compute",
  "For every function of polars_ds that takes columns, calling it through polars_ds.compat with Series (in one or several chunks), numpy arrays, pandas Series or objects with __array__ instead of column names returns a Series with the same values and type as the expression evaluated in a frame with these columns, named as the function without the prefix query_. Inputs the expression refuses are refused. The names that make no sense there and calls without a positional argument are refused with ValueError.",
  "inputs", "every catalogue function x kinds of array x lengths",
  "Tests call three functions through it; functions that count rows, make literals or take keyword columns are not tried.",
  ["python/polars_ds/compat/_compat.py", "python/polars_ds/compat/__init__.py"],
  [("conversion and evaluation", "_compat.py compat_wrapper")],
  "Exhaustive catalogue x kinds of argument x lengths; the same expression over a frame is the reference.")
P("P33", "Data inspection reports say what the data are",
  "Every report of DIA agrees with its definition on the data: special value counts and shares, numeric profiles (moments, quartiles, outliers), string statistics, correlations and correlations of missingness. col_validation and row_validation report exactly the rows for which a rule is false, with a rule (or all rules) they violate. infer_high_null, infer_const, infer_binary, infer_k_distinct, infer_discrete, infer_prob and infer_corr name exactly the columns their documentation describes, for any mix of column types in the frame; infer_dependency gives the conditional entropies and plot_dependency exactly the dependencies not implied by others.",
  "inputs", "all small columns of every type, all outcomes of rules, all small pairs of columns",
  "The reports have no tests at all.",
  ["python/polars_ds/eda/diagnosis.py"],
  [("profiles and special values", "diagnosis.py numeric_profile, special_values_report"), ("validation", "diagnosis.py col_validation, row_validation"), ("inference", "diagnosis.py infer_*"), ("dependencies", "diagnosis.py infer_dependency, plot_dependency")],
  "Every column in the bound is given to the real reports and compared with a direct count in Python; the quartile is accepted at either neighbour of a tie. Bin counts of the histogram column are not claimed (empty bins are left out).")
P("P34", "Plots show the data's curves, lines and statistics",
  "The data drawn by plot_feature_distr (values, bad value share, mean and median marks, conditions and groups), plot_lin_reg (points, line, equation), plot_prob_calibration (mean prediction and observed rate per quantile bin), plot_roc_auc (curve from (0,0) to (1,1), area shown) and plot_pca (projections) are those of the input, and unacceptable inputs are refused.",
  "inputs configurations", "all small targets and scores, lengths up to 200, options",
  "Plots have no tests; what is drawn is only seen by eye.",
  ["python/polars_ds/eda/plots.py", "python/polars_ds/eda/diagnosis.py"],
  [("distributions", "plots.py plot_feature_distr"), ("regression", "plots.py plot_lin_reg"), ("curves", "plots.py plot_roc_auc, plot_prob_calibration"), ("components", "plots.py plot_pca")],
  "Every input in the bound; the chart's specification is read back and compared with direct computations.")
P("P35", "The numeric type of a column does not change the answer",
  "Every expression over numbers gives, for columns of any integer type (Int8 to UInt64) and mixtures of types, what it gives for the same numbers as Float64 and Int64, over the whole range of the type: no difference of unsigned numbers wraps around, no sum of small integers overflows, no type is refused that holds the same numbers. Float32 columns give the Float64 answer up to single precision. (Excepted: next_up/next_down, which are about the type, and the horizontal norms, documented as shorthands of Polars expressions.)",
  "inputs configurations", "all 8 integer types and Float32 x value ranges up to the end points x all assignments of types to columns",
  "Tests use one type, usually Float64 or literals; type errors show only for particular types and values near their limits.",
  ["python/polars_ds/exprs/", "src/num_ext/", "src/stats/", "src/utils/"],
  [("metrics", "metrics.py (casts to Float64)"), ("regressions", "expr_linear.py, src/linalg"), ("casts of plugin inputs", "src/utils/mod.rs to_f64_matrix and friends"), ("tests", "src/stats/*.rs"), ("time series", "ts_features.py")],
  "Every expression of the catalogue, every type and range in the bound; the oracle is the real code on Float64, whose values P08 to P28 check against definitions.")
P("P36", "The order of the rows matters only where it should",
  "Statistics, tests, metrics, regressions, entropies of columns, encodings, PSI/WOE/IV and neighbour queries do not depend on the order of the rows: a permutation of the rows permutes row-wise results and leaves aggregates unchanged (singular vectors up to sign; results that are sets as sets).",
  "inputs", "all orders of up to 5 rows, all transpositions and rotations of longer frames",
  "Tests evaluate one order of rows.",
  ["python/polars_ds/exprs/", "src/"],
  [("trees", "src/arkadia/arkadia.rs"), ("metrics", "src/stats_utils, src/num_ext/tp_fp.rs"), ("tests", "src/stats/*.rs"), ("groupings", "src/num_ext/psi.rs, woe_iv.rs, target_encode.rs")],
  "Every expression of the catalogue that is not about sequences; each order is given to the real code. Frames for nearest neighbours have no ties, where documented answers are ambiguous.")
P("P37", "What columns are called does not change the answer",
  "Renaming the columns of a frame, to any names that do not begin with two underscores (which the package keeps for itself), changes no value of any expression, report, pipeline, model, sample or partition: no name clashes with the names the package uses for its own intermediate columns and fields.",
  "inputs configurations", "every rotation of about 200 adversarial names over 22 columns",
  "Tests use a few plain names; a clash shows only for one name in one place.",
  ["python/polars_ds/", "src/"],
  [("aliases of intermediate columns", "python/polars_ds/exprs/*.py (.alias, struct.field)"), ("frames made in plugins", "src/stats/*.rs, src/num_ext/*.rs (df, lazy)"), ("transforms", "modeling/transforms.py"), ("NDCG", "metrics.py calculate_ndcg")],
  "Every expression of the catalogue is rebuilt with each assignment of names and evaluated on the renamed frame. Excepted are names that the documented result itself has (its own fields beside ones named after columns).")
P("P38", "Evaluating changes nothing but its own result",
  "Evaluating an expression leaves its input, memory shared with its input, and the expression itself unchanged; evaluating it again, after anything else, or together with any other expression gives exactly the same result. Constructing and using models, trees, pipelines, reports and splits leaves the arguments unchanged, and later changes by the caller to those arguments, or to arrays an object returned, do not change the object.",
  "histories inputs", "all pairs of about 240 expressions, all expressions x layouts, walks through the catalogue from every start, 24 object constructions",
  "Tests evaluate one expression once on fresh data; aliasing and shared state show only in combinations.",
  ["src/", "python/polars_ds/"],
  [("plugin inputs shared with the engine", "src/**/*.rs (pyo3_polars plugins)"), ("numpy inputs", "src/pymodels/*.rs, spatial.py, linear_models.py"), ("pipelines", "modeling/pipeline.py")],
  "The real code is run on every combination in the bound and compared with snapshots taken before.")
P("P39", "Degenerate data and parameters give a value or an ordinary error",
  "Every expression, model, tree, report and pipeline, given data that are empty, too short, constant, null, NaN, infinite, huge or tiny, arguments of the wrong length, type or shape, and parameters out of range, returns a value (of as many rows as the input where it is row-wise) or raises an ordinary error: no panic, no abort, no hang.",
  "inputs configurations", "the whole catalogue x some 40 degenerate frames per length; every pair of scalar parameters of every function x every kind of value; models on degenerate matrices",
  "Tests give ordinary data; the failures are combinations of one function, one kind of degenerate value and one parameter.",
  ["python/polars_ds/", "src/"],
  [("checks of lengths and nulls", "src/num_ext/*.rs, src/stats/*.rs, src/str_ext/*.rs"), ("linear algebra", "src/linalg/*.rs"), ("trees", "src/arkadia/kdt.rs"), ("models", "src/pymodels/*.rs, python/polars_ds/linear_models.py, spatial.py")],
  "The real code is run on every combination in the bound, each in a process whose panics, aborts, signals and time-outs are observed; which value or error is right is decided by the other properties.")
P("P40", "An argument means the same however it is given",
  "A function gives the same result whether a column argument is a name or any expression with the same values, an argument that takes values is a Series, list, tuple, iterator or numpy array, a formula is SQL text or the expression it stands for, a number is Python's or numpy's, an argument is positional or by keyword, a default is left out or given; where a literal is accepted in place of a column it counts for every row.",
  "calls of the API", "every call of the catalogue x every argument x every way of giving it x sizes x nulls; 6 linear functions x 72 pairs of formulas x weights",
  "Tests call each function in one way; a form of an argument that is mistreated (copied wrongly, reordered, cut to one row, refused) shows only in another way of the same call.",
  ["python/polars_ds/", "src/"],
  [("str_to_expr and formulas", "python/polars_ds/_utils.py, python/polars_ds/exprs/expr_linear.py"), ("values handed to plugins", "python/polars_ds/exprs/*.py"), ("broadcasting", "src/num_ext/*.rs, src/str_ext/*.rs")],
  "The calls are made on the real code and compared with the one call the catalogue has; that one is decided by the other properties.")
P("P41", "The units and the origin of the data do not change the answer",
  "Measuring the data in other units (multiplying columns by a power of two) or from another origin (adding a constant) changes each result only as its definition says: neighbours, ranks, tests, correlations, entropies, encodings and fits of shape stay the same, distances, coefficients and errors are scaled by the matching power of the unit, and locations move with the origin; arguments given in units of the data (radii, bounds, thresholds, penalties) are given in the new ones. Exceptions are only the documented absolute constants.",
  "inputs", "about 210 expressions and classes x units 2^-60 to 2^60, and about 150 x origins up to +-2^26",
  "Tests use numbers of ordinary size near zero; absolute tolerances and cancellation show only for tiny, huge or far-away data.",
  ["python/polars_ds/", "src/"],
  [("neighbours", "src/arkadia/mod.rs, src/num_ext/knn.rs"), ("models", "src/linalg/*.rs"), ("statistics", "src/stats/*.rs, python/polars_ds/exprs/stats.py"), ("time series", "python/polars_ds/exprs/ts_features.py, src/num_ext/*.rs")],
  "Powers of two scale floats exactly and the shifted values stay representable, so the results are compared to rounding; the real code is run on the data before and after.")
