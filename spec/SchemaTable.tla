---------------------------- MODULE SchemaTable ----------------------------
(* the type every expression gives, at numbers of type ty *)
EXTENDS Schema
Rules == <<
  <<F64,
    {"abs_energy", "corr_spearman", "msle", "adj_r2", "approx_entropy", "auto_corr", "avg_streak", "bicor", "c3", "cat_cross_entropy", "cid", "cond_entropy", "cond_indep", "convolve_fft",
     "convolve_full", "convolve_left", "convolve_right", "convolve_same", "convolve_valid", "copula_entropy", "corr_bicor", "corr_kendall", "cosine_sim",
     "detrend_linear", "digamma", "dist_from_kth_cosine", "dist_from_kth_inf", "dist_from_kth_l1", "dist_from_kth_l2", "dist_from_kth_sql2", "entropy",
     "gini", "hmean", "huber", "info_value", "info_value_discrete", "isotonic", "isotonic_w", "jaccard_col", "jaccard_col_null",
     "jaccard_row", "kendall", "knn_avg", "knn_avg_w", "knn_entropy", "l1", "l2", "l_inf", "lempel_ziv", "log_cosh", "log_loss", "log_loss_sum", "mape",
     "mape_w", "mase", "mcc", "mean_abs_change", "mean_n_abs_max", "mid_range", "multi_roc", "p_pct", "perm_entropy", "psi", "psi_discrete", "r2", "random",
     "random_exp", "random_normal", "roc_auc", "sample_entropy", "smape", "str_d_leven_sim", "str_fuzz", "str_fuzz_lit", "str_fuzz_par", "str_jaccard",
     "str_jaccard_lit", "str_jaccard_par", "str_jaro", "str_jaro_lit", "str_jaro_par", "str_jw", "str_jw_lit", "str_jw_par", "str_lcs_seq", "str_lcs_seq_lit",
     "str_lcs_seq_par", "str_leven_sim", "str_osa_sim", "str_overlap_coeff", "str_overlap_coeff_lit", "str_overlap_coeff_par", "str_sorensen_dice", "str_sorensen_dice_lit",
     "str_sorensen_dice_par", "symm_ratio", "tra", "transfer_entropy", "trapz", "trapz_h", "tversky", "w_corr", "w_cosine_sim", "w_cov", "w_gmean", "w_hmean",
     "w_mean", "w_var", "xi", "xlogy", "xlogy_lit"}>>,
  <<U32,
    {"count_uniques", "hamming", "hamming_pad", "lempel_ziv_int", "longest_streak", "nb_cnt_expr", "nb_cnt_inf", "nb_cnt_l1", "nb_cnt_l2", "nb_cnt_sql2",
     "range_count", "similar_count", "similar_count_z", "str_d_leven", "str_d_leven_lit", "str_d_leven_par", "str_lcs_seq_dist", "str_leven", "str_leven_lit",
     "str_leven_par", "str_osa", "str_osa_lit", "str_osa_par", "streak"}>>,
  <<Fl,
    {"center", "corr_pearson", "cv", "detrend_mean", "exp2", "expit", "expit_neg", "fairness", "fract", "gamma", "gmean", "haversine", "haversine_lit", "jitter", "l2_sq_h",
     "logit", "mad", "mad_median", "next_down", "next_up", "perturb", "sinc", "softmax", "z_normalize"}>>,
  <<Str,
    {"extract_numbers_join", "map_words", "normalize_string", "normalize_whitespace", "random_str", "remove_diacritics", "replace_non_ascii", "replace_non_ascii_x",
     "str_nearest", "str_snowball", "to_camel_case", "to_constant_case", "to_pascal_case", "to_snake_case"}>>,
  <<S(<<"statistic", "pvalue">>, <<F64, F64>>),
    {"chi2", "f_test1", "f_test2", "ks", "ks_binary", "mwu", "normal_test", "ttest_1samp", "ttest_ind", "ttest_stats", "ttest_stats_welch", "ttest_welch",
     "xi_p"}>>,
  <<L(F64),
    {"ar_coeffs", "explained_ratio", "explained_var", "lasso", "lin_reg_formula", "lin_reg_ignore", "lin_reg_raise", "lin_reg_skip", "lin_reg_w", "lin_reg_zero",
     "ridge", "singular_values"}>>,
  <<Bool,
    {"filter_hamming", "filter_hamming_pad", "filter_leven", "is_decreasing", "is_increasing", "is_knn_from", "is_stopword", "similar_vocab", "within_dist"}
>>,
  <<L(U32),
    {"benford", "combinations", "combinations_unique", "first_digit", "knn_ptwise", "knn_ptwise_mask", "list_amax", "radius_ptwise"}>>,
  <<L(F32),
    {"lasso_f32", "lin_reg_formula_f32", "lin_reg_ignore_f32", "lin_reg_raise_f32", "lin_reg_skip_f32", "lin_reg_w_f32", "lin_reg_zero_f32", "ridge_f32"}
>>,
  <<S(<<"pred", "resid">>, <<F64, F64>>),
    {"enet_pred", "lin_reg_pred_ignore", "lin_reg_pred_raise", "lin_reg_pred_skip", "lin_reg_pred_zero", "lin_reg_w_pred"}>>,
  <<S(<<"pred", "resid">>, <<F32, F32>>),
    {"enet_pred_f32", "lin_reg_pred_ignore_f32", "lin_reg_pred_raise_f32", "lin_reg_pred_skip_f32", "lin_reg_pred_zero_f32", "lin_reg_w_pred_f32"}>>,
  <<In,
    {"l1_h", "l_inf_h", "random_null", "trunc", "winsorize"}>>,
  <<S(<<"coeffs", "pred">>, <<L(F64), F64>>),
    {"recursive", "recursive_skip", "rolling", "rolling_skip"}>>,
  <<I32,
    {"gcd", "gcd_lit", "lcm", "random_int"}>>,
  <<S(<<"coeffs", "pred">>, <<L(F32), F32>>),
    {"recursive_f32", "recursive_skip_f32", "rolling_f32", "rolling_skip_f32"}>>,
  <<A(F64, 2),
    {"rfft", "rfft_full", "rfft_n"}>>,
  <<S(<<"i", "count">>, <<U32, U32>>),
    {"knn_freq_cnt", "radius_freq_cnt"}>>,
  <<L(Fl),
    {"simple_lin_reg", "simple_lin_reg_w"}>>,
  <<S(<<"features", "beta", "std_err", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"report", "report_w"}>>,
  <<S(<<"<=", "baseline_pct", "actual_pct", "psi_bin">>, <<F64, F64, F64, F64>>),
    {"psi_bps", "psi_report"}>>,
  <<S(<<"value", "woe">>, <<Str, F64>>),
    {"woe", "woe_discrete"}>>,
  <<S(<<"value", "iv">>, <<Str, F64>>),
    {"info_value_discrete_rep", "info_value_rep"}>>,
  <<L(Str),
    {"extract_numbers", "str_tokenize"}>>,
  <<S(<<"features", "beta", "std_err", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F32, F32, F32, F32, F32, F32, F32, F32>>),
    {"report_f32", "report_w_f32"}>>,
  <<L(In),
    {"product"}>>,
  <<S(<<"idx", "dist">>, <<L(U32), L(F64)>>),
    {"knn_ptwise_dist"}>>,
  <<S(<<"target_0", "target_1">>, <<L(F64), L(F64)>>),
    {"lin_reg_multi"}>>,
  <<S(<<"target_0_pred", "target_0_resid", "target_1_pred", "target_1_resid">>, <<F64, F64, F64, F64>>),
    {"lin_reg_multi_pred"}>>,
  <<S(<<"coeffs", "singular_values">>, <<L(F64), L(F64)>>),
    {"lin_reg_rcond"}>>,
  <<S(<<"pred", "resid">>, <<Fl, Fl>>),
    {"simple_lin_reg_pred"}>>,
  <<S(<<"features", "beta", "hc0_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"report_hc0"}>>,
  <<S(<<"features", "beta", "hc1_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"report_hc1"}>>,
  <<S(<<"features", "beta", "hc2_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"report_hc2"}>>,
  <<S(<<"features", "beta", "hc3_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"report_hc3"}>>,
  <<S(<<"tn", "fp", "fn", "tp">>, <<U32, U32, U32, U32>>),
    {"confusion"}>>,
  <<S(<<"tp", "tn", "fp", "fn", "tpr", "tnr", "fpr", "fnr", "prevalence", "prevalence_threshold", "informedness", "precision", "false_omission_rate", "plr", "nlr", "acc", "balanced_accuracy", "f1", "folkes_mallows_index", "mcc", "threat_score", "markedness", "fdr", "npv", "dor">>, <<U32, U32, U32, U32, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64, F64>>),
    {"confusion_all"}>>,
  <<S(<<"precision", "recall", "f", "average_precision", "roc_auc">>, <<F64, F64, F64, F64, F64>>),
    {"binary_metrics"}>>,
  <<S(<<"threshold", "tpr", "fpr">>, <<F64, F64, F64>>),
    {"tpr_fpr"}>>,
  <<S(<<"singular_value", "weight_vector">>, <<F64, L(F64)>>),
    {"pca"}>>,
  <<S(<<"pc1", "pc2">>, <<F64, F64>>),
    {"pcs"}>>,
  <<S(<<"pc1">>, <<F64>>),
    {"pcs1"}>>,
  <<S(<<"baseline_category", "actual_category", "baseline_pct", "actual_pct", "psi_bin">>, <<Str, Str, F64, F64, F64>>),
    {"psi_discrete_report"}>>,
  <<S(<<"value", "to">>, <<Str, F64>>),
    {"target_encode"}>>,
  <<S(<<"statistic", "pvalue", "dof", "k", "k2", "E[freq]">>, <<F64, F64, U32, Str, Str, F64>>),
    {"chi2_full"}>>,
  <<U64,
    {"random_binomial"}>>,
  <<S(<<"target_0", "target_1">>, <<L(F32), L(F32)>>),
    {"lin_reg_multi_f32"}>>,
  <<S(<<"target_0_pred", "target_0_resid", "target_1_pred", "target_1_resid">>, <<F32, F32, F32, F32>>),
    {"lin_reg_multi_pred_f32"}>>,
  <<S(<<"coeffs", "singular_values">>, <<L(F32), L(F32)>>),
    {"lin_reg_rcond_f32"}>>,
  <<S(<<"features", "beta", "hc0_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F32, F32, F32, F32, F32, F32, F32, F32>>),
    {"report_hc0_f32"}>>,
  <<S(<<"features", "beta", "hc1_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F32, F32, F32, F32, F32, F32, F32, F32>>),
    {"report_hc1_f32"}>>,
  <<S(<<"features", "beta", "hc2_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F32, F32, F32, F32, F32, F32, F32, F32>>),
    {"report_hc2_f32"}>>,
  <<S(<<"features", "beta", "hc3_se", "t", "p>|t|", "0.025", "0.975", "r2", "adj_r2">>, <<Str, F32, F32, F32, F32, F32, F32, F32, F32>>),
    {"report_hc3_f32"}>>>>
Names == UNION {Rules[i][2] : i \in DOMAIN Rules}
RuleOf(f) == Rules[CHOOSE i \in DOMAIN Rules : f \in Rules[i][2]][1]
TypeOf(f, ty) == Sub(RuleOf(f), ty)
ASSUME \A i, j \in DOMAIN Rules : i # j => Rules[i][2] \cap Rules[j][2] = {}
(* one value for all the rows; any number of values; otherwise one per row *)
One ==
  {"abs_energy", "adj_r2", "approx_entropy", "ar_coeffs", "auto_corr", "avg_streak", "benford", "bicor", "binary_metrics", "c3", "cat_cross_entropy", "chi2",
   "cid", "cond_entropy", "cond_indep", "confusion", "confusion_all", "copula_entropy", "corr_bicor", "corr_kendall", "corr_pearson", "corr_spearman",
   "cosine_sim", "count_uniques", "cv", "entropy", "explained_ratio", "explained_var", "f_test1", "fairness", "first_digit", "gini", "gmean", "hmean",
   "huber", "info_value", "info_value_discrete", "is_decreasing", "is_increasing", "jaccard_col", "jaccard_col_null", "kendall", "knn_entropy", "ks", "ks_binary",
   "l1", "l2", "l_inf", "lasso", "lasso_f32", "lempel_ziv", "lempel_ziv_int", "lin_reg_formula", "lin_reg_formula_f32", "lin_reg_ignore", "lin_reg_ignore_f32",
   "lin_reg_multi", "lin_reg_multi_f32", "lin_reg_raise", "lin_reg_raise_f32", "lin_reg_rcond", "lin_reg_rcond_f32", "lin_reg_skip", "lin_reg_skip_f32",
   "lin_reg_w", "lin_reg_w_f32", "lin_reg_zero", "lin_reg_zero_f32", "log_cosh", "log_loss", "log_loss_sum", "longest_streak", "mad", "mad_median", "mape",
   "mape_w", "mase", "mcc", "mean_abs_change", "mean_n_abs_max", "mid_range", "msle", "multi_roc", "mwu", "normal_test", "p_pct", "perm_entropy", "psi",
   "psi_discrete", "r2", "range_count", "ridge", "ridge_f32", "roc_auc", "sample_entropy", "similar_count", "similar_count_z", "simple_lin_reg", "simple_lin_reg_w",
   "singular_values", "smape", "str_nearest", "symm_ratio", "tra", "transfer_entropy", "trapz", "trapz_h", "ttest_1samp", "ttest_ind", "ttest_stats", "ttest_stats_welch",
   "ttest_welch", "w_corr", "w_cosine_sim", "w_cov", "w_gmean", "w_hmean", "w_mean", "w_var", "xi", "xi_p"}
Many ==
  {"chi2_full", "combinations", "combinations_unique", "convolve_fft", "convolve_full", "convolve_valid", "f_test2", "info_value_discrete_rep", "info_value_rep",
   "knn_freq_cnt", "pca", "product", "psi_bps", "psi_discrete_report", "psi_report", "radius_freq_cnt", "report", "report_f32", "report_hc0", "report_hc0_f32",
   "report_hc1", "report_hc1_f32", "report_hc2", "report_hc2_f32", "report_hc3", "report_hc3_f32", "report_w", "report_w_f32", "rfft", "rfft_full", "rfft_n",
   "streak", "target_encode", "tpr_fpr", "woe", "woe_discrete"}
KindOf(f) == IF f \in One THEN "one" ELSE IF f \in Many THEN "many" ELSE "rows"
=============================================================================
