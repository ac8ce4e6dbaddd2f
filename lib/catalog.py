"""Every expression of the library, with arguments that are valid for any rows of the frame `rows_frame` builds.

kind: elem  each output row depends on its own row only          rows  one value per row, depending on all rows
      one   one value for all the rows                           many  any number of rows
"""
import random
import polars as pl
import polars_ds as pds
import polars_ds.exprs.metrics as M
import polars_ds.exprs.num as N
import polars_ds.exprs.stats as S
import polars_ds.exprs.string as X
import polars_ds.exprs.ts_features as T

c = pl.col
WORDS = ["alpha", "beta", "alphabet", "gamma ray", "the", "Über", "naïve café", "x1 2.5", "", "running", "camelCaseWord", "snake_case", "  two  spaces ", "a,b 3", "ab", "ba"]
# entries in no particular order (one per distinct value)
BAGS = {"info_value_rep", "info_value_discrete_rep", "psi_discrete_report", "target_encode", "woe", "woe_discrete", "chi2_full", "knn_freq_cnt", "radius_freq_cnt", "combinations_unique"}
# made with .struct.field(): Polars itself names the field of a struct differently in an aggregation
FIELDS = {"info_value", "info_value_discrete", "psi", "psi_discrete", "perm_entropy"}
# Polars takes quantiles of overlapping windows with another kernel, which rounds "nearest" differently
NO_DYNAMIC = {"winsorize"}
# the streaming engine of this Polars release panics on its own as_struct over these arithmetic subexpressions, and mixes up the rows of a list.eval over a group
NO_STREAM = {"simple_lin_reg_pred", "perm_entropy"}
LEAST = {"normal_test": 20}      # rows needed


def rows_frame(seed, n, nulls=0, ty="f64"):
    """n rows of general position; nulls: 0 none, 1 some"""
    r = random.Random(seed)
    q = lambda lo, hi, d=64: r.randint(lo * d, hi * d) / d
    cols = {}
    cols["i"] = list(range(n))
    cols["a"] = [q(-8, 8) for _ in range(n)]
    cols["b"] = [q(-8, 8) for _ in range(n)]
    cols["c"] = [q(1, 9) for _ in range(n)]
    cols["y"] = [x - 2 * z + w / 4 + q(-1, 1) for x, z, w in zip(cols["a"], cols["b"], cols["c"])]
    cols["w"] = [q(1, 4, 16) for _ in range(n)]
    cols["u"] = [r.randint(1, 63) / 64 for _ in range(n)]
    cols["n"] = [r.randint(1, 20) for _ in range(n)]
    cols["m"] = [r.randint(1, 20) for _ in range(n)]
    cols["t"] = [(k + r.randint(0, 3) // 3) % 2 == 0 for k in range(n)]
    cols["t2"] = [(k // 2 + r.randint(0, 3) // 3) % 2 == 0 for k in range(n)]
    cols["k"] = [r.choice("pqr") if k > 2 else "pqr"[k] for k in range(n)]
    cols["k2"] = [r.choice("uv") if k > 1 else "uv"[k] for k in range(n)]
    cols["s"] = [r.choice(WORDS) for _ in range(n)]
    cols["s2"] = [r.choice(WORDS) for _ in range(n)]
    cols["h"] = ["".join(r.choice("01ab") for _ in range(4)) for _ in range(n)]
    cols["h2"] = ["".join(r.choice("01ab") for _ in range(4)) for _ in range(n)]
    cols["l"] = [[r.randint(0, 5) for _ in range(r.randint(1, 4))] for _ in range(n)]
    cols["l2"] = [[r.randint(0, 5) for _ in range(r.randint(1, 4))] for _ in range(n)]
    cols["lf"] = [[q(-4, 4) for _ in range(3)] for _ in range(n)]
    pr = [(r.randint(1, 10), r.randint(1, 5)) for _ in range(n)]
    cols["pr"] = [[x / 16, z / 16, (16 - x - z) / 16] for x, z in pr]
    cols["lab"] = [k % 3 if k < 3 else r.randint(0, 2) for k in range(n)]
    cols["lat"] = [q(-80, 80) for _ in range(n)]
    cols["lon"] = [q(-170, 170) for _ in range(n)]
    cols["z"] = [r.randint(0, 1) for _ in range(n)]
    if n > 1:
        cols["z"][:2] = [0, 1]
    if nulls:
        for name in ("a", "b", "y", "s", "s2", "n", "l", "t"):
            for k in range(n):
                if r.randint(0, 7) == 0:
                    cols[name][k] = None
    f = pl.Float32 if ty == "f32" else pl.Float64
    DT = {"i": pl.UInt32, "n": pl.Int64, "m": pl.Int64, "t": pl.Boolean, "t2": pl.Boolean, "k": pl.String, "k2": pl.String, "s": pl.String, "s2": pl.String, "h": pl.String, "h2": pl.String,
         "l": pl.List(pl.Int64), "l2": pl.List(pl.Int64), "lf": pl.List(pl.Float64), "pr": pl.List(pl.Float64), "lab": pl.UInt32, "z": pl.Int64}
    return pl.DataFrame({x: pl.Series(x, v, dtype=DT.get(x, f)) for x, v in cols.items()})


def catalog():
    """name -> (kind, needs, builder); needs: 'full' when the arguments must not hold nulls"""
    C = {}

    def add(kind, name, f, full=False, chance=False):
        assert name not in C, name
        C[name] = (kind, full, chance, f)
    F = ["a", "b", "c"]
    # ---- iteration
    add("many", "product", lambda: pds.product("a", "c"), True)
    add("many", "combinations", lambda: pds.combinations("i", 2))
    add("many", "combinations_unique", lambda: pds.combinations("lab", 2, unique=True))
    # ---- neighbours
    for d in ("l1", "l2", "sql2", "inf", "cosine"):
        add("rows", f"dist_from_kth_{d}", lambda d=d: pds.query_dist_from_kth_nb(*F, k=2, dist=d), True)
        if d != "cosine":
            add("rows", f"nb_cnt_{d}", lambda d=d: pds.query_nb_cnt(*F, r=4.0, dist=d), True)
    add("rows", "nb_cnt_expr", lambda: pds.query_nb_cnt(*F, r=c("w"), dist="l2"), True)
    add("rows", "knn_ptwise", lambda: pds.query_knn_ptwise(*F, index="i", k=2, dist="sql2"), True)
    add("rows", "knn_ptwise_dist", lambda: pds.query_knn_ptwise(*F, index="i", k=2, dist="l1", return_dist=True), True)
    add("rows", "knn_ptwise_mask", lambda: pds.query_knn_ptwise(*F, index="i", k=2, dist="l2", eval_mask=c("n") > 6, data_mask=c("m") > 4), True)
    add("many", "knn_freq_cnt", lambda: pds.query_knn_freq_cnt(*F, index="i", k=2, dist="sql2"), True)
    add("rows", "knn_avg", lambda: pds.query_knn_avg(*F, target="y", k=2, dist="sql2"), True)
    add("rows", "knn_avg_w", lambda: pds.query_knn_avg(*F, target="y", k=3, dist="l2", weighted=True), True)
    add("elem", "within_dist", lambda: pds.within_dist_from("a", "b", pt=[1.0, 2.0], r=5.0, dist="l2"))
    add("rows", "is_knn_from", lambda: pds.is_knn_from("a", "b", pt=[1.0, 2.0], k=2, dist="l2"), True)
    add("rows", "radius_ptwise", lambda: pds.query_radius_ptwise(*F, index="i", r=6.0, dist="l2"), True)
    add("many", "radius_freq_cnt", lambda: pds.query_radius_freq_cnt(*F, index="i", r=6.0, dist="l2"), True)
    # ---- least squares
    for np_ in ("raise", "skip", "zero", "ignore"):
        full = np_ in ("raise", "ignore")
        add("one", f"lin_reg_{np_}", lambda q=np_: pds.lin_reg(*F, target="y", add_bias=True, null_policy=q), full)
        add("rows", f"lin_reg_pred_{np_}", lambda q=np_: pds.lin_reg(*F, target="y", return_pred=True, null_policy=q), full)
    add("one", "lin_reg_w", lambda: pds.lin_reg("a", "b", target="y", weights="w", add_bias=True), True)
    add("rows", "lin_reg_w_pred", lambda: pds.lin_reg("a", "b", target="y", weights="w", return_pred=True), True)
    add("one", "ridge", lambda: pds.lin_reg("a", "b", target="y", l2_reg=0.5, add_bias=True), True)
    add("one", "lasso", lambda: pds.lin_reg("a", "b", target="y", l1_reg=0.1, add_bias=True, tol=1e-9), True)
    add("rows", "enet_pred", lambda: pds.lin_reg("a", "b", target="y", l1_reg=0.1, l2_reg=0.1, add_bias=True, return_pred=True, tol=1e-9), True)
    add("one", "lin_reg_multi", lambda: pds.lin_reg("a", "b", target=["y", "c"], add_bias=True), True)
    add("rows", "lin_reg_multi_pred", lambda: pds.lin_reg("a", "b", target=["y", "c"], return_pred=True), True)
    add("one", "lin_reg_formula", lambda: pds.lin_reg("ln(1+w)", "b", target="y", add_bias=True), True)
    add("one", "lin_reg_rcond", lambda: pds.lin_reg_w_rcond("a", "b", target="y", rcond=1e-6), True)
    add("one", "simple_lin_reg", lambda: pds.simple_lin_reg("a", target="y", add_bias=True), True)
    add("one", "simple_lin_reg_w", lambda: pds.simple_lin_reg("a", target="y", weights="w"), True)
    add("rows", "simple_lin_reg_pred", lambda: pds.simple_lin_reg("a", target="y", add_bias=True, return_pred=True), True)
    add("rows", "recursive", lambda: pds.recursive_lin_reg("a", "b", target="y", start_with=3), True)
    add("rows", "recursive_skip", lambda: pds.recursive_lin_reg("a", "b", target="y", start_with=3, null_policy="skip", add_bias=True), True)
    add("rows", "rolling", lambda: pds.rolling_lin_reg("a", "b", target="y", window_size=4), True)
    add("rows", "rolling_skip", lambda: pds.rolling_lin_reg("a", "b", target="y", window_size=5, null_policy="skip", min_valid_rows=3), False)
    add("many", "report", lambda: pds.lin_reg_report("a", "b", target="y", add_bias=True), True)
    add("many", "report_w", lambda: pds.lin_reg_report("a", "b", target="y", weights="w"), True)
    for h in ("hc0", "hc1", "hc2", "hc3"):
        add("many", f"report_{h}", lambda h=h: pds.lin_reg_report("a", "b", target="y", std_err=h), True)
    # ---- metrics
    for nm, f in (("mad", lambda: pds.query_mad("a")), ("mad_median", lambda: pds.query_mad("a", use_mean=False)),
                  ("r2", lambda: pds.query_r2("y", "a")), ("adj_r2", lambda: pds.query_adj_r2("y", "a", p=1)),
                  ("log_cosh", lambda: pds.query_log_cosh("y", "a")), ("huber", lambda: pds.query_hubor_loss("y", "a", delta=1.0)),
                  ("l2", lambda: pds.query_l2("y", "a")), ("l1", lambda: pds.query_l1("y", "a")), ("l_inf", lambda: pds.query_l_inf("y", "a")),
                  ("mape", lambda: pds.query_mape("c", "w")), ("mape_w", lambda: pds.query_mape("c", "w", weighted=True)), ("smape", lambda: pds.query_smape("c", "w")),
                  ("msle", lambda: pds.query_msle("c", "w")), ("log_loss", lambda: pds.query_log_loss("t2", "u")), ("log_loss_sum", lambda: pds.query_log_loss("t2", "u", normalize=False)),
                  ("roc_auc", lambda: pds.query_roc_auc("t2", "u")), ("gini", lambda: M.query_gini("t2", "u")),
                  ("mase", lambda: pds.query_mase("y", "c", train="b")),
                  ("confusion", lambda: pds.query_confusion_matrix("t2", "u")), ("confusion_all", lambda: pds.query_confusion_matrix("t2", "u", all_metrics=True)),
                  ("binary_metrics", lambda: pds.query_binary_metrics("t2", "u")), ("multi_roc", lambda: pds.query_multi_roc_auc("lab", "pr", n_classes=3)),
                  ("cat_cross_entropy", lambda: pds.query_cat_cross_entropy("lab", "pr", dense=True)), ("mcc", lambda: pds.query_mcc("t2", "z")),
                  ("fairness", lambda: pds.query_fairness("u", c("t2"))), ("p_pct", lambda: pds.query_p_pct_score("z", c("t2")))):
        add("one", nm, f, True)
    add("many", "tpr_fpr", lambda: pds.query_tpr_fpr("t2", "u"), True)
    # ---- numeric
    add("elem", "l_inf_h", lambda: pds.l_inf_horizontal("a", "b", "c"), True)
    add("elem", "l2_sq_h", lambda: pds.l2_sq_horizontal("a", "b", "c", normalize=True), True)
    add("elem", "l1_h", lambda: pds.l1_horizontal("a", "b", "c"), True)
    add("one", "is_increasing", lambda: pds.is_increasing("a"), True)
    add("one", "is_decreasing", lambda: pds.is_decreasing("a", strict=True), True)
    add("rows", "center", lambda: pds.center("a"))
    add("rows", "z_normalize", lambda: pds.z_normalize("a"))
    add("rows", "softmax", lambda: pds.softmax("a"))
    add("elem", "gcd", lambda: pds.gcd("n", "m"))
    add("elem", "gcd_lit", lambda: pds.gcd("n", 6))
    add("elem", "lcm", lambda: pds.lcm("n", "m"))
    add("elem", "haversine", lambda: pds.haversine("lat", "lon", "lon", "lat"))
    add("elem", "haversine_lit", lambda: pds.haversine("lat", "lon", 10.0, 20.0))
    add("one", "singular_values", lambda: pds.singular_values(*F), True)
    add("one", "explained_var", lambda: pds.singular_values(*F, as_explained_var=True), True)
    add("one", "explained_ratio", lambda: pds.singular_values(*F, as_explained_var=True, as_ratio=True), True)
    add("many", "pca", lambda: pds.pca(*F), True)
    add("rows", "pcs", lambda: pds.principal_components(*F, k=2), True)
    add("rows", "pcs1", lambda: pds.principal_components(*F, k=1, center=True), True)
    add("elem", "jaccard_row", lambda: pds.jaccard_row("l", "l2"), True)
    add("one", "jaccard_col", lambda: pds.jaccard_col("n", "m"))
    add("one", "jaccard_col_null", lambda: pds.jaccard_col("n", "m", count_null=True))
    add("one", "psi", lambda: pds.psi("a", "b", n_bins=3), True)
    add("many", "psi_report", lambda: pds.psi("a", "b", n_bins=3, return_report=True), True)
    add("one", "psi_discrete", lambda: pds.psi_discrete("k", "k2"), True)
    add("many", "psi_discrete_report", lambda: pds.psi_discrete("k", "k2", return_report=True), True)
    add("many", "psi_bps", lambda: pds.psi_w_breakpoints("a", "b", [-3.0, 0.0, 3.0]), True)
    add("many", "woe", lambda: pds.woe("a", "z", n_bins=2), True)
    add("many", "woe_discrete", lambda: pds.woe_discrete("k2", "z"), True)
    add("one", "info_value", lambda: pds.info_value("a", "z", n_bins=2), True)
    add("many", "info_value_rep", lambda: pds.info_value("a", "z", n_bins=2, return_sum=False), True)
    add("one", "info_value_discrete", lambda: pds.info_value_discrete("k2", "z"), True)
    add("many", "info_value_discrete_rep", lambda: pds.info_value_discrete("k2", "z", return_sum=False), True)
    add("one", "trapz", lambda: pds.integrate_trapz("y", "a"), True)
    add("one", "trapz_h", lambda: pds.integrate_trapz("y", 0.5), True)
    for md in ("full", "same", "valid", "left", "right"):
        add("rows" if md in ("same", "left", "right") else "many", f"convolve_{md}", lambda md=md: pds.convolve("a", [1.0, -1.0, 0.5], mode=md), True)
    add("many", "convolve_fft", lambda: pds.convolve("a", [1.0, -1.0, 0.5], mode="full", method="fft"), True)
    add("elem", "list_amax", lambda: pds.list_amax("lf"))
    for fn in ("gamma", "expit", "exp2", "fract", "trunc", "sinc", "digamma", "next_up", "next_down"):
        add("elem", fn, lambda fn=fn: getattr(N, fn)("c"))
    add("elem", "expit_neg", lambda: pds.expit("a"))
    add("elem", "logit", lambda: pds.logit("u"))
    add("elem", "xlogy", lambda: pds.xlogy("c", "w"))
    add("elem", "xlogy_lit", lambda: pds.xlogy("c", 2.0))
    add("rows", "detrend_linear", lambda: pds.detrend("a", "linear"), True)
    add("rows", "detrend_mean", lambda: pds.detrend("a", "mean"), True)
    add("many", "rfft", lambda: pds.rfft("a"), True)
    add("many", "rfft_full", lambda: pds.rfft("a", return_full=True), True)
    add("many", "rfft_n", lambda: pds.rfft("a", n=4), True)
    add("many", "target_encode", lambda: N.target_encode("k", "z"), True)
    add("rows", "isotonic", lambda: pds.isotonic_regression("a"), True)
    add("rows", "isotonic_w", lambda: pds.isotonic_regression("a", weights="w", increasing=False), True)
    # ---- statistics
    for nm, f in (("ttest_ind", lambda: pds.ttest_ind("a", "b")), ("ttest_welch", lambda: pds.ttest_ind("a", "b", equal_var=False)), ("ttest_1samp", lambda: pds.ttest_1samp("a", 0.5)),
                  ("ttest_stats", lambda: pds.ttest_ind_from_stats("a", 0.5, 2.0, 10)), ("ttest_stats_welch", lambda: pds.ttest_ind_from_stats("a", 0.5, 2.0, 10, equal_var=False)),
                  ("ks", lambda: pds.ks_2samp("a", "b")), ("ks_binary", lambda: pds.ks_2samp("a", "z", is_binary=True)),
                  ("f_test1", lambda: pds.f_test("a", group="k2")), ("chi2", lambda: pds.chi2("k", "k2")),
                  ("mwu", lambda: pds.mann_whitney_u("a", "b")), ("normal_test", lambda: pds.normal_test("a")),
                  ("hmean", lambda: pds.hmean("c")), ("w_hmean", lambda: pds.weighted_hmean("c", "w")), ("gmean", lambda: pds.gmean("c")), ("w_gmean", lambda: pds.weighted_gmean("c", "w")),
                  ("w_mean", lambda: pds.weighted_mean("a", "w")), ("w_var", lambda: pds.weighted_var("a", "w")), ("w_cov", lambda: pds.weighted_cov("a", "b", "w")), ("w_corr", lambda: pds.weighted_corr("a", "b", "w")),
                  ("cosine_sim", lambda: pds.cosine_sim("a", "b")), ("w_cosine_sim", lambda: pds.weighted_cosine_sim("a", "b", "w")), ("kendall", lambda: pds.kendall_tau("a", "b")),
                  ("bicor", lambda: pds.bicor("a", "b")), ("xi", lambda: pds.xi_corr("a", "b", seed=1)), ("xi_p", lambda: pds.xi_corr("a", "b", return_p=True, seed=1)),
                  ("corr_pearson", lambda: pds.corr("a", "b")), ("corr_spearman", lambda: pds.corr("a", "b", method="spearman")), ("corr_kendall", lambda: pds.corr("a", "b", method="kendall")),
                  ("corr_bicor", lambda: pds.corr("a", "b", method="bicor"))):
        add("one", nm, f, True)
    add("many", "f_test2", lambda: pds.f_test("a", "b", group="k2"), True)
    add("many", "chi2_full", lambda: pds.chi2("k", "k2", return_full=True), True)
    add("rows", "winsorize", lambda: S.winsorize("a", 0.1, 0.9), True)
    # random columns with a seed: the same seed gives the same column wherever that many values are drawn
    add("rows", "perturb", lambda: pds.perturb("a", 0.5, seed=7), True, True)
    add("rows", "jitter", lambda: pds.jitter("a", 0.5, seed=7), True, True)
    add("rows", "random", lambda: pds.random(0.0, 2.0, seed=7), True, True)
    add("rows", "random_int", lambda: pds.random_int(0, 99, seed=7), True, True)
    add("rows", "random_str", lambda: pds.random_str(2, 5, seed=7), True, True)
    add("rows", "random_binomial", lambda: pds.random_binomial(30, 0.5, seed=7), True, True)
    add("rows", "random_exp", lambda: pds.random_exp(0.5, seed=7), True, True)
    add("rows", "random_normal", lambda: pds.random_normal(0.0, 1.0, seed=7), True, True)
    add("rows", "random_null", lambda: pds.random_null("c", 0.5, seed=7), True, True)
    # ---- strings
    add("elem", "filter_leven", lambda: pds.filter_by_levenshtein("s", "s2", 3))
    add("elem", "filter_hamming", lambda: pds.filter_by_hamming("h", "h2", 2))
    add("elem", "filter_hamming_pad", lambda: pds.filter_by_hamming("s", "s2", 4, pad=True))
    add("elem", "hamming", lambda: pds.str_hamming("h", "h2"))
    add("elem", "hamming_pad", lambda: pds.str_hamming("s", "s2", pad=True))
    for fn in ("is_stopword", "to_camel_case", "to_snake_case", "to_pascal_case", "to_constant_case", "remove_diacritics", "normalize_whitespace", "str_snowball"):
        add("elem", fn, lambda fn=fn: getattr(pds, fn)("s"))
    add("one", "str_nearest", lambda: pds.str_nearest("s", "alphabets", threshold=20), True)
    add("elem", "str_tokenize", lambda: pds.str_tokenize("s"))
    for fn in ("str_jaccard", "str_overlap_coeff", "str_sorensen_dice", "str_jw", "str_jaro", "str_d_leven", "str_leven", "str_lcs_seq", "str_osa", "str_fuzz"):
        for par in (False, True):
            add("elem", fn + ("_par" if par else ""), lambda fn=fn, par=par: getattr(X, fn)("s", "s2", parallel=par))
        add("elem", fn + "_lit", lambda fn=fn: getattr(X, fn)("s", pl.lit("alpha")))
    for fn in ("str_d_leven", "str_leven", "str_lcs_seq", "str_osa"):
        add("elem", fn + ("_sim" if fn != "str_lcs_seq" else "_dist"), lambda fn=fn: getattr(pds, fn)("s", "s2", return_sim=fn != "str_lcs_seq"))
    add("elem", "tversky", lambda: pds.str_tversky_sim("s", "s2", 0.5, 1.0))
    add("elem", "similar_vocab", lambda: pds.similar_to_vocab("s", ["alpha", "beta", "naive"], 0.5, metric="lv", strategy="avg"))
    add("elem", "extract_numbers", lambda: pds.extract_numbers("s"))
    add("elem", "extract_numbers_join", lambda: pds.extract_numbers("s", join_by="-"))
    add("elem", "replace_non_ascii", lambda: pds.replace_non_ascii("s"))
    add("elem", "replace_non_ascii_x", lambda: pds.replace_non_ascii("s", "?"))
    add("elem", "normalize_string", lambda: pds.normalize_string("s", form="NFD"))
    add("elem", "map_words", lambda: pds.map_words("s", {"the": "a", "alpha": "omega"}))
    # ---- time series
    for nm, f in (("mid_range", lambda: pds.query_mid_range("a")), ("symm_ratio", lambda: pds.query_symm_ratio("a")), ("abs_energy", lambda: pds.query_abs_energy("a")), ("mean_abs_change", lambda: pds.query_mean_abs_change("a")),
                  ("mean_n_abs_max", lambda: pds.query_mean_n_abs_max("a", 3)), ("cv", lambda: pds.query_cv("c")), ("count_uniques", lambda: pds.query_count_uniques("n")), ("range_count", lambda: pds.query_range_count("a", -1.0, 4.0)),
                  ("longest_streak", lambda: pds.query_longest_streak(c("a") > 0)), ("avg_streak", lambda: pds.query_avg_streak(c("a") > 0)),
                  ("first_digit", lambda: pds.query_first_digit_cnt("c")), ("benford", lambda: T.query_benford("c")),
                  ("similar_count", lambda: pds.query_similar_count([1.0, 2.0], "a", threshold=9.0)), ("similar_count_z", lambda: pds.query_similar_count([1.0, 2.0, 0.0], "a", threshold=2.0, metric="sqzl2")),
                  ("lempel_ziv", lambda: pds.query_lempel_ziv(c("a") > 0)), ("lempel_ziv_int", lambda: pds.query_lempel_ziv(c("t2"), as_ratio=False)),
                  ("c3", lambda: pds.query_c3_stats("a", 1)), ("cid", lambda: pds.query_cid_ce("a")), ("tra", lambda: pds.query_time_reversal_asymmetry_stats("a", 1)), ("auto_corr", lambda: pds.query_auto_corr("a", 1)),
                  ("ar_coeffs", lambda: pds.query_ar_coeffs("a", 1)),
                  ("entropy", lambda: pds.query_entropy("n")), ("cond_entropy", lambda: pds.query_cond_entropy("k", "k2")), ("sample_entropy", lambda: pds.query_sample_entropy("a", ratio=0.9)), ("approx_entropy", lambda: pds.query_approx_entropy("a", 2, 0.9)),
                  ("knn_entropy", lambda: pds.query_knn_entropy("a", "b", k=2)), ("copula_entropy", lambda: pds.query_copula_entropy("a", "b", k=2)),
                  ("cond_indep", lambda: pds.query_cond_indep("a", "b", "c", k=2)), ("transfer_entropy", lambda: pds.query_transfer_entropy("a", "b", 1, k=2)), ("perm_entropy", lambda: pds.query_permute_entropy("a", 1, 2))):
        add("one", nm, f, True)
    add("many", "streak", lambda: pds.query_streak(c("a") > 0), True)
    return C


def _single(f):
    """the single precision version of a regression expression"""
    import polars_ds.config as cfg

    def g():
        old = cfg.LIN_REG_EXPR_F64
        cfg.LIN_REG_EXPR_F64 = False
        try:
            return f()
        finally:
            cfg.LIN_REG_EXPR_F64 = old
    return g


def everything():
    C = catalog()
    for n in [n for n in C if n.startswith(("lin_reg", "ridge", "lasso", "enet", "recursive", "rolling", "report"))]:
        k, full, ch, f = C[n]
        C[n + "_f32"] = (k, full, ch, _single(f))
    return C
