"""The defaults of the arguments, as the documentation of each function shows them."""

DEFAULTS = {'add_noise': {'noise_type': 'gaussian'},
 'bicor': {'c': 9.0},
 'chi2': {'return_full': False},
 'combinations': {'unique': False},
 'convolve': {'fill_value': 0.0, 'method': 'direct', 'mode': 'full', 'parallel': False},
 'corr': {'method': 'pearson'},
 'detrend': {'method': 'linear'},
 'extract_numbers': {'ignore_comma': False, 'join_by': ''},
 'filter_by_hamming': {'pad': False, 'parallel': False},
 'filter_by_levenshtein': {'parallel': False},
 'info_value': {'n_bins': 10, 'return_sum': True},
 'info_value_discrete': {'return_sum': True},
 'is_decreasing': {'strict': False},
 'is_increasing': {'strict': False},
 'is_knn_from': {'dist': 'sql2'},
 'isotonic_regression': {'increasing': True, 'weights': None},
 'jaccard_col': {'count_null': False},
 'jitter': {'std': 1.0},
 'ks_2samp': {'alpha': 0.05, 'is_binary': False},
 'l1_horizontal': {'normalize': False},
 'l2_sq_horizontal': {'normalize': False},
 'l_inf_horizontal': {'normalize': False},
 'lin_reg': {'add_bias': False, 'l1_reg': 0.0, 'l2_reg': 0.0, 'null_policy': 'skip', 'return_pred': False, 'solver': 'qr', 'tol': 1e-05, 'weights': None},
 'lin_reg_report': {'add_bias': False, 'null_policy': 'raise', 'std_err': 'se', 'weights': None},
 'lin_reg_w_rcond': {'add_bias': False, 'l2_reg': 0.0, 'null_policy': 'raise', 'rcond': 0.0},
 'mann_whitney_u': {'alternative': 'two-sided'},
 'normalize_whitespace': {'only_spaces': False},
 'pca': {'center': True},
 'perturb': {'epsilon': 1e-05, 'positive': False},
 'principal_components': {'center': True, 'k': 2},
 'psi': {'n_bins': 10, 'return_report': False},
 'psi_discrete': {'return_report': False},
 'query_approx_entropy': {'parallel': True, 'scale_by_std': True},
 'query_ar_coeffs': {'add_bias': True, 'null_policy': 'raise'},
 'query_auto_corr': {'ddof': 0, 'normalize': True},
 'query_binary_metrics': {'threshold': 0.5},
 'query_cat_cross_entropy': {'dense': True, 'normalize': True},
 'query_cid_ce': {'normalize': False},
 'query_cond_indep': {'k': 3, 'parallel': False},
 'query_confusion_matrix': {'all_metrics': False, 'threshold': 0.5},
 'query_copula_entropy': {'k': 3, 'parallel': False},
 'query_cv': {'ddof': 1},
 'query_dist_from_kth_nb': {'dist': 'sql2', 'epsilon': 0.0, 'max_bound': 99999.0, 'parallel': False},
 'query_entropy': {'base': 2.718281828459045, 'normalize': True},
 'query_knn_avg': {'dist': 'sql2', 'max_bound': 99999.0, 'min_bound': 1e-09, 'parallel': False, 'weighted': False},
 'query_knn_entropy': {'dist': 'l2', 'k': 3, 'parallel': False},
 'query_knn_freq_cnt': {'data_mask': None, 'dist': 'sql2', 'epsilon': 0.0, 'eval_mask': None, 'max_bound': 99999.0, 'parallel': False},
 'query_knn_ptwise': {'data_mask': None, 'dist': 'sql2', 'epsilon': 0.0, 'eval_mask': None, 'max_bound': 99999.0, 'parallel': False, 'return_dist': False},
 'query_l1': {'normalize': True},
 'query_l2': {'normalize': True},
 'query_lempel_ziv': {'as_ratio': True},
 'query_log_cosh': {'normalize': True},
 'query_log_loss': {'normalize': True},
 'query_lstsq': {'add_bias': False, 'l1_reg': 0.0, 'l2_reg': 0.0, 'null_policy': 'skip', 'return_pred': False, 'solver': 'qr', 'tol': 1e-05, 'weights': None},
 'query_lstsq_report': {'add_bias': False, 'null_policy': 'raise', 'weights': None},
 'query_lstsq_w_rcond': {'add_bias': False, 'l2_reg': 0.0, 'null_policy': 'raise', 'rcond': 0.0},
 'query_mad': {'use_mean': True},
 'query_mape': {'weighted': False},
 'query_mase': {'freq': 1, 'use_mean': True},
 'query_msle': {'normalize': True},
 'query_multi_roc_auc': {'strategy': 'weighted'},
 'query_nb_cnt': {'dist': 'sql2', 'parallel': False},
 'query_permute_entropy': {'base': 2.718281828459045, 'n_dims': 3, 'tau': 1},
 'query_radius_freq_cnt': {'dist': 'sql2', 'parallel': False},
 'query_radius_ptwise': {'dist': 'sql2', 'parallel': False, 'sort': True},
 'query_recursive_lstsq': {'add_bias': False, 'l2_reg': 0.0, 'null_policy': 'raise'},
 'query_rolling_lstsq': {'add_bias': False, 'l2_reg': 0.0, 'min_valid_rows': None, 'null_policy': 'raise'},
 'query_sample_entropy': {'m': 2, 'parallel': False, 'ratio': 0.2},
 'query_similar_count': {'metric': 'sqzl2', 'parallel': False, 'return_ratio': False},
 'query_transfer_entropy': {'k': 3, 'lag': 1, 'parallel': False},
 'random': {'lower': 0.0, 'upper': 1.0},
 'recursive_lin_reg': {'add_bias': False, 'l2_reg': 0.0, 'null_policy': 'raise'},
 'replace_non_ascii': {'value': ''},
 'rfft': {'n': None, 'return_full': False},
 'rolling_lin_reg': {'add_bias': False, 'l2_reg': 0.0, 'min_valid_rows': None, 'null_policy': 'raise'},
 'similar_to_vocab': {'metric': 'lv', 'strategy': 'avg'},
 'simple_lin_reg': {'add_bias': False, 'return_pred': False, 'weights': None},
 'singular_values': {'as_explained_var': False, 'as_ratio': False, 'center': True},
 'str_d_leven': {'parallel': False, 'return_sim': False},
 'str_fuzz': {'parallel': False},
 'str_hamming': {'pad': False, 'parallel': False},
 'str_jaccard': {'parallel': False, 'substr_size': 2},
 'str_jaro': {'parallel': False},
 'str_jw': {'parallel': False, 'weight': 0.1},
 'str_lcs_seq': {'parallel': False, 'return_sim': True},
 'str_leven': {'parallel': False, 'return_sim': False},
 'str_nearest': {'metric': 'lv', 'threshold': 100},
 'str_osa': {'parallel': False, 'return_sim': False},
 'str_snowball': {'no_stopwords': True},
 'str_sorensen_dice': {'parallel': False, 'substr_size': 2},
 'str_tokenize': {'pattern': '(?u)\\b\\w\\w+\\b', 'stem': False},
 'str_tversky_sim': {'parallel': False, 'substr_size': 2},
 'ttest_1samp': {'alternative': 'two-sided'},
 'ttest_ind': {'alternative': 'two-sided', 'equal_var': False},
 'ttest_ind_from_stats': {'alternative': 'two-sided', 'equal_var': False},
 'weighted_gmean': {'is_normalized': False},
 'weighted_hmean': {'is_normalized': False},
 'weighted_mean': {'is_normalized': False},
 'weighted_var': {'freq_weights': False},
 'within_dist_from': {'dist': 'sql2'},
 'woe': {'n_bins': 10},
 'xi_corr': {'return_p': False}}
