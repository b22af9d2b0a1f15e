"""Per-property run settings (kept import-light)."""
DEFAULT = dict(budget=dict(quick=14.0, thorough=240.0), workers=(8, 0))
TECH = {"_": "runtime monitoring: seeded hostile workloads on the real code, outcome checked by an independent reference oracle"}
CFG = {}
CFG["P01"] = dict(workers=(7, 1), required=["orders_executed", "api_logs", "status_0_-1", "status_2_7", "status_1_5", "random_rejections"],
                  min_distinct=200)
TECH["P01"] = "runtime monitoring: every executed order (direct and through the API, interpreted and compiled with bounds checks) replayed on an executable account model"

CFG["P05"] = dict(required=["decision_open", "decision_close", "decision_increase", "decision_reduce", "decision_reverse", "table_pos_long",
                            "form_pairs", "named_mode_sets"], min_distinct=100)
TECH["P05"] = "runtime monitoring: orders of signal simulations under all mode combinations compared with an executable decision table"
CFG["P06"] = dict(required=["stop_hit_sl", "stop_hit_tp", "adjust_calls", "direct_hits", "direct_no_hit", "no_stop_runs"], min_distinct=100)
TECH["P06"] = "runtime monitoring: stop exits of signal simulations on random OHLC paths compared with an executable stop state machine"
CFG["P08"] = dict(workers=(7, 1), required=["ctx_order", "ctx_post_order", "ctx_pre_row", "ctx_pre_group", "sim_flex_row_shared", "sim_plain_col", "variant_pairs", "signal_order_pairs", "compiled_pairs"],
                  min_distinct=100)
TECH["P08"] = "runtime monitoring: callback traces of all simulators checked against a trace model, and differential runs of all front ends"

CFG["P02"] = dict(required=["bars_checked", "fills", "short_positions", "in_sim_order", "regrouped", "flexible", "auto_align", "auto_plain", "long_histories"], min_distinct=100)
TECH["P02"] = "runtime monitoring: independent ledger replay of recorded orders/logs compared bar by bar with the reported cash, assets and values"

CFG["P12"] = dict(required=["chain_links", "unfilled_logs", "histories_orders", "histories_signals", "histories_func", "partial_logs", "status_info_filters", "log_stats", "selections", "orders_overflow", "logs_overflow"], min_distinct=100)
TECH["P12"] = "runtime monitoring: structural and chaining checker over recorded order/log histories plus recomputation of every accessor from the raw records"

CFG["P07"] = dict(required=["auto_bars", "auto_bars_reordered", "bars_with_several_fills", "bars_selling_and_buying", "values_of_several_holdings", "seq_custom", "signal_seq_auto", "signal_seq_reversed", "func_sorted_segments", "random_sequences_shuffled", "sequences_built", "sequences_refused"], min_distinct=100)
TECH["P07"] = "runtime monitoring: per-bar settlement checker over log histories of cash-sharing groups (permutation, order, cash hand-over, group value, ascending order value)"

CFG["P03"] = dict(required=["past_orders_compared", "past_logs_compared", "futures_that_differ", "rewritten_orders", "rewritten_signals", "rewritten_func", "rewritten_flex_row", "rewritten_flex_col", "rewritten_plain_row", "rewritten_plain_col", "truncated_orders", "truncated_signals", "truncated_func", "callback_signal_runs", "holding_runs"], min_distinct=100)
TECH["P03"] = "runtime monitoring: differential runs with rewritten or truncated futures, recorded pasts compared bit for bit"

CFG["P04"] = dict(required=["alone_comparisons", "orders_compared", "rearranged", "removed", "shared_orders", "separate_orders", "shared_signals", "separate_signals", "real_sharing", "func_comparisons", "func_flex_row_shared", "func_plain_row_shared", "func_flex_col", "func_plain_col", "insertions"], min_distinct=80)
TECH["P04"] = "runtime monitoring: differential runs of columns and groups alone, rearranged and with inserted strangers, histories compared bit for bit"

CFG["P09"] = dict(required=["positions_checked", "multi_part_positions", "open_trades", "short_trades", "stats_tables", "unsorted_layouts", "empty_columns", "guards", "profit_comparisons", "func_portfolios"], min_distinct=100)
TECH["P09"] = "runtime monitoring: trade and position records judged against a position model replaying the order records, conservation laws on the records themselves"

CFG["P10"] = dict(required=["bars", "views_grouped", "views_single", "drawdown_series", "nan_closes", "auto_cash", "sim_order_runs", "sim_order_changing_sequences", "guards", "stats_tables", "stats_grouped", "stats_incl_open", "stats_asset_returns", "ratios"], min_distinct=100)
TECH["P10"] = "runtime monitoring: every series and metric of simulated portfolios recomputed from order records, close and initial cash; stats tables judged against accessors and reference formulas"

CFG["P11"] = dict(required=['selections', 'selected_groups', 'uneven_groups', 'single', 'nested', 'stats_tables', 'resimulated', 'resimulated_sharing', 'regrouped_change', 'regrouped_all', 'regrouped_off', 'sharing_guards', 'duplicates', 'sim_order', 'from_func'], min_distinct=60)
TECH["P11"] = "runtime monitoring: differential analysis of selected/regrouped portfolios against selecting the analysis and re-simulating the selection"

CFG["R01"] = dict(required=['mappers', 'operations', 'selections', 'unsorted', 'empty_columns', 'no_records', 'range_path', 'map_path', 'group_selections', 'column_selections_grouped', 'chained', 'regrouped', 'attached_series', 'filters', 'real_drawdowns', 'real_ranges', 'real_trades'], workers=(7, 1), min_distinct=100)
TECH["R01"] = "runtime monitoring: record sets of every layout pushed through the real operations, each result compared with a brute-force recomputation on the raw record list"

CFG["R02"] = dict(required=['reductions', 'nth', 'idx_reductions', 'array_reductions', 'empty_units', 'grouped_views', 'with_nan', 'ties', 'top_bottom', 'filters', 'tables', 'conflicts', 'stacked_tables', 'value_counts', 'mappings', 'percentiles', 'described', 'stats'], workers=(7, 1), min_distinct=100)
TECH["R02"] = "runtime monitoring: random mapped arrays in every layout and grouping pushed through the real operations, results compared with a brute-force recomputation on each unit's list of values"

CFG["R03"] = dict(required=['ranges', 'open_ranges', 'overlapping', 'grouped_views', 'zero_duration', 'drawdowns', 'recovered', 'active', 'with_nan', 'stats_tables', 'grouped_active_refused'], workers=(7, 1), min_distinct=100)
TECH["R03"] = "runtime monitoring: runtime monitoring: brute-force run finder as oracle over range/drawdown records, masks, coverage and statistics of generated series (interpreted and compiled)"

CFG["G01"] = dict(required=['with_nan', 'other_dtypes', 'minp_beyond_length', 'rolling_std', 'rolling_mean', 'expanding_std', 'ewm_mean', 'ewm_std', 'kernel_rolling_mean', 'kernel_ewm_std', 'long_series', 'long_rows'], workers=(6, 2), min_distinct=100)
TECH["G01"] = "runtime monitoring: runtime monitoring: results of the real accessors and kernels on generated series (gaps, scales, dtypes, layouts, long runs) judged against pandas and exact window sums"

CFG["G02"] = dict(required=['fshift', 'bshift', 'diff', 'pct_change', 'ffill', 'bfill', 'fillna', 'cumsum', 'cumprod', 'crossings_after_wait', 'grouped', 'idx_ties', 'idx_all_nan_group', 'negative_steps', 'vc_groups', 'vc_str', 'describe_grouped', 'zscore', 'masked', 'nth'], workers=(6, 2), min_distinct=400)
TECH["G02"] = "runtime monitoring: brute-force and pandas reference oracles over random frames, dtypes, layouts, groupings; interpreted and compiled"

CFG["G03"] = dict(required=['calls', 'rolling', 'expanding', 'rolling_matrix', 'groupby_groups', 'bins', 'empty_bins', 'grouped', 'uneven_groups', 'flat_idx', 'jit_roll', 'jit_groupby', 'jit_squeeze'], workers=(6, 2), min_distinct=300)
TECH["G03"] = "runtime monitoring: trace oracle over every user-function call (arguments, count, result placement) plus direct evaluation of the compiled appliers"

CFG["G04"] = dict(required=['sets', 'several_sets', 'label_bounds', 'explicit_bounds', 'impossible', 'sets_do_not_fit', 'split_range', 'split_rolling', 'split_expanding', 'foreign'], min_distinct=400)
TECH["G04"] = "runtime monitoring: specification checker over every emitted split (bounds, disjointness, order, even spacing) and cell-exact frames"

CFG["S01"] = dict(required=['generated', 'factory', 'exits', 'pairs', 'cleaned', 'clean_one', 'conflicts', 'logic', 'rejected', 'skip', 'wait0'], workers=(6, 2), min_distinct=100)
TECH["S01"] = "runtime monitoring: reference model of the generation, cleaning and shifting rules; choice functions that log their calls"

CFG["S02"] = dict(required=['reseeded', 'prob_cells', 'alternating', 'counted_pairs', 'counted', 'windows', 'sure', 'no_room', 'gen_RAND', 'gen_RANDX', 'gen_RANDNX', 'gen_RPROB', 'gen_RPROBX', 'gen_RPROBCX', 'gen_RPROBNX', 'spread'], workers=(6, 2), min_distinct=100)
TECH["S02"] = "runtime monitoring: rule checkers over drawn signals: counts, windows, waits, probability 0/1 rows, reseeding and frequency of every row"

CFG["S03"] = dict(required=['chained', 'stop_exits', 'trailing', 'ohlc_exits', 'ohlc_chained', 'out_given', 'rejected', 'hit_sl', 'hit_trail', 'hit_tp', 'param_exits', 'STX', 'STCX', 'OHLCSTX', 'OHLCSTCX'], workers=(6, 2), min_distinct=100)
TECH["S03"] = "runtime monitoring: bar-by-bar reference of the stop levels run beside the stop generators (exact touches, gaps, missing prices)"

CFG["S04"] = dict(required=['ranked', 'reset', 'after_false', 'plain', 'mapped', 'mapped_grouped', 'rank_calls', 'ranges', 'ranges_grouped', 'from_other', 'to_other', 'grouped', 'indexed'], workers=(6, 2), min_distinct=100)
TECH["S04"] = "runtime monitoring: brute-force counting of signals, runs and gaps per column beside the ranking, range and index methods; ranking functions that log their calls"

CFG["I01"] = dict(required=['MA', 'MSTD', 'BBANDS', 'RSI', 'STOCH', 'MACD', 'ATR', 'OBV', 'with_nan', 'warm_up', 'default_parameters', 'several_parameters', 'functions', 'long_series', 'flat_rsi'], workers=(6, 2), min_distinct=100)
TECH["I01"] = "runtime monitoring: row-by-row textbook reference (loops, pandas) compared with every output column of hundreds of drawn configurations in compiled and interpreted execution"

CFG["I02"] = dict(required=['apply', 'custom', 'packed', 'per_column', 'unique_shortcut', 'cache', 'cache_reused', 'raw_reused', 'numba_loop', 'product', 'hidden', 'all_hidden', 'broadcast_inputs', 'combinations', 'in_outputs', 'partly_given', 'in_outputs_pandas', 'kind_tuple', 'kind_array', 'kind_array_col', 'kind_enum', 'kind_per_column', 'kind_reference', 'kind_shape', 'loc_num', 'loc_flt', 'loc_bool', 'loc_str', 'loc_tup', 'loc_list', 'loc_slice', 'loc_tuple', 'iloc', 'xs', 'rows', 'several_others', 'builtin', 'talib', 'helper_above', 'helper_crossed_above', 'helper_xor'], workers=(6, 2), min_distinct=100)
TECH["I02"] = "runtime monitoring: hooked user functions that log their calls; every output cell, label, parameter map and selection compared with one evaluation per combination and column"

CFG["L01"] = dict(required=['with_nan', 'several_thresholds', 'threshold_arrays', 'swings', 'functions', 'LEXLB', 'BOLB', 'breakouts', 'trend_Binary', 'trend_BinaryCont', 'trend_BinaryContSat', 'trend_PctChange', 'trend_PctChangeNorm', 'FMEAN', 'FSTD', 'FMIN', 'FMAX', 'FIXLB', 'MEANLB', 'defined', 'current_row_included', 'rules'], workers=(6, 2), min_distinct=100)
TECH["L01"] = "runtime monitoring: runtime monitoring: brute-force look-ahead windows and zigzag reference, plus structural checks (alternation, swing size) over the emitted labels, in compiled and interpreted execution"

CFG["T01"] = dict(required=['with_nan', 'freq_given', 'year_freq_given', 'defaults_given', 'selected', 'infinite', 'total', 'annualized', 'annualized_volatility', 'calmar_ratio', 'omega_ratio', 'sharpe_ratio', 'downside_risk', 'sortino_ratio', 'information_ratio', 'beta', 'alpha', 'tail_ratio', 'common_sense_ratio', 'value_at_risk', 'cond_value_at_risk', 'capture', 'up_capture', 'down_capture', 'max_drawdown', 'drawdown_records', 'inverted', 'returns_from_value', 'returns_to_returns', 'returns_function', 'returns_array', 'zero_base', 'deflated', 'requirements', 'benchmark_frame', 'benchmark_row', 'benchmark_series'], workers=(6, 2), min_distinct=100)
TECH["T01"] = "runtime monitoring: reference formulas evaluated beside every metric call over hundreds of return series, benchmarks, frequencies and default settings"

CFG["T02"] = dict(required=['with_nan', 'windows', 'too_few', 'own_benchmark', 'compiled', 'whole', 'gaps', 'empty_bins', 'bins', 'daily', 'annual', 'free', 'same_frequency', 'total', 'annualized', 'annualized_volatility', 'calmar_ratio', 'omega_ratio', 'sharpe_ratio', 'downside_risk', 'sortino_ratio', 'information_ratio', 'beta', 'alpha', 'tail_ratio', 'common_sense_ratio', 'value_at_risk', 'cond_value_at_risk', 'capture', 'up_capture', 'down_capture', 'max_drawdown'], workers=(6, 2), min_distinct=100)
TECH["T02"] = "runtime monitoring: every window of every rolling metric re-evaluated with the reference formula; every resampled bin compounded by hand"

CFG["G05"] = dict(required=['MA', 'MSTD', 'BBANDS', 'RSI', 'STOCH', 'MACD', 'ATR', 'OBV', 'rolling_std', 'ewm_mean', 'ewm_std', 'ffill', 'cumsum', 'cumprod', 'fillna', 'rolling_apply', 'expanding_apply', 'crossing', 'rank', 'clean', 'stop_exits', 'ohlc_stop_exits', 'STX', 'OHLCSTCX', 'returns', 'to_returns', 'talib', 'FIXLB', 'future_windows', 'BOLB', 'rolling_min', 'rolling_max', 'rolling_mean', 'rolling_std', 'expanding_min', 'expanding_max', 'expanding_mean', 'expanding_std', 'fshift', 'diff', 'pct_change', 'rewritten_redraw', 'rewritten_cut', 'rewritten_swap', 'rewritten_extreme', 'rewritten_missing', 'rows_compared', 'confirmed'], workers=(6, 2), min_distinct=100)
TECH["G05"] = "runtime monitoring: every operation run twice, on the inputs and on inputs whose rows after t were rewritten, cut, swapped, scaled or removed; the outputs up to t (minus the documented horizon of labels) must agree"

CFG["B01"] = dict(required=['cells compared', 'label conflicts raised', 'flexible selections', 'alignments', 'alignment refused', 'targets', 'settings compared'], workers=(6, 2), min_distinct=150)
TECH["B01"] = "runtime monitoring: reference broadcasting and label rules checked on every cell and label of random mixes of scalars, arrays, series and frames; flexible selection executed at every cell"

CFG["B02"] = dict(required=['stacked', 'index operations', 'accessor operations', 'built', 'reshaped cells', 'unstacked cells', 'symmetric cells', 'combined combine', 'combined concat', 'combined apply', 'combined magic', 'loops'], workers=(6, 2), min_distinct=150)
TECH["B02"] = "runtime monitoring: reference label algebra checked against every label and cell produced by index, reshape and combination functions and accessors"

CFG["B03"] = dict(required=['cells selected', 'wrapper selections', 'selections refused', 'column selections', 'groupings', 'incoherent groups refused', 'group changes refused', 'group selections', 'column selections inside groups', 'flips refused', 'wrapped cells', 'single selections', 'frequencies', 'parameter selections'], min_distinct=150)
TECH["B03"] = "runtime monitoring: every selection, grouping and wrapping compared with the same operation on an equivalent pandas object or a list model"

CFG["D01"] = dict(required=['cells compared', 'updates', 'concatenated columns', 'selected cells', 'candles', 'synthetic rows', 'mismatches refused'], workers=(6, 0), min_distinct=100)
TECH["D01"] = "runtime monitoring: row-by-row reference model of aligned/updated data; scripted sources and paged fake exchanges with gaps and failures record every request"

CFG["D02"] = dict(required=['foreground runs', 'background runs', 'control actions', 'background stops', 'concurrent async jobs', 'run-all schedules', 'run-pending schedules', 'rejected argument orders', 'accepted argument orders', 'timedelta intervals', 'direct updates', 'foreground updates', 'background updates', 'failed updates'], workers=(8, 0), min_distinct=200)
TECH["D02"] = "runtime monitoring: trace checking of executed schedules on a virtual clock (datetime, sleep, event loop) against a timeline model; updater state checked after every update incl. injected feed failures"

CFG["U01"] = dict(required=['copied dicts', 'merged dicts', 'same-key merges', 'config operations', 'read-only configs', 'frozen configs', 'attribute configs', 'converted configs', 'copied configs', 'signatures and flags', 'settings resets'], workers=(8, 0), min_distinct=200)
TECH["U01"] = "runtime monitoring: model-based monitoring of random operation sequences; identity (aliasing) checks of copies and sources"

CFG["U02"] = dict(required=['round trips of portfolio', 'round trips of records', 'round trips of mapped', 'round trips of config', 'round trips of wrapper', 'round trips of grouper', 'round trips of mapper', 'round trips of data', 'round trips of indicator', 'round trips of custom', 'round trips of accessor', 'round trips by pickle', 'round trips by container', 'results compared after loading', 'replacements', 'objects with their own metrics', 'altered objects', 'objects passed between processes', 'load_update'], workers=(6, 2), min_distinct=200)
TECH["U02"] = "runtime monitoring: round-trip monitors (bytes, file, pickle, other process, copies) with a strict independent comparison; single-alteration probes of deep equality"

CFG["U03"] = dict(required=['histories', 'evaluations', 'results from the cache', 'caches cleared', 'overridden members', 'decisions to cache', 'conditions overruling the default', 'invalid conditions', 'results compared', 'results computed once', 'objects derived from others', 'concurrent accesses', 'results from concurrent threads', 'lock orders'], min_distinct=200)
TECH["U03"] = "runtime monitoring: random histories of accesses, clearings and settings on generated class hierarchies against an evaluation-counting model; cached members of real objects against uncached twins; concurrent threads with tiny switch intervals, evaluation counts and a lock-order monitor"

CFG["U04"] = dict(required=['objects with templates', 'templates that cannot be resolved', 'templates substituted in place', 'nested in-place substitutions', 'enum translations', 'mappings applied', 'mapped frame', 'mapped series', 'mapped array2', 'tag expressions', 'attribute paths', 'last attribute not called', 'attributes resolved', 'resolved from the cache', 'instants converted', 'datetime dt64', 'datetime naive', 'times and frequencies', 'close numbers', 'distinct numbers', 'arrays ranges', 'arrays minmax', 'arrays seed'], workers=(6, 2), min_distinct=300)
TECH["U04"] = "runtime monitoring: generated templates, mappings, enum containers, boolean tag expressions, attribute chains, instants in time zones with daylight saving time and numbers against independent interpreters (rational arithmetic for tolerances)"

CFG["A01"] = dict(required=['rows', 'tables of pf', 'tables of trades', 'tables of orders', 'tables of logs', 'tables of dd', 'tables of ranges', 'tables of records', 'tables of mapped', 'tables of generic', 'tables of signals', 'tables of returns', 'tables of data', 'tables of indicator', 'one column selected', 'regrouped', 'own object', 'regrouped object', 'single', 'errors', 'changed metrics', 'global settings', 'custom metrics', 'arguments', 'paths', 'durations', 'portfolio paths'], workers=(8, 0), min_distinct=200)
TECH["A01"] = "runtime monitoring: every statistics table recomputed row by row by direct calls on the object, its groups and its single columns; custom metrics with spy functions against a model of filters, tags, templates, settings and aggregation"

CFG["E01"] = dict(required=['resolutions', 'predicates', 'arguments', 'operations', 'missing_engine', 'native_calls', 'members', 'kernels'], workers=(8, 0), min_distinct=100)
TECH["E01"] = ("runtime monitoring: recorders in place of every kernel observe what each dispatch wrapper passes on; a stand-in native "
               "package with the declared signatures and conversion rules lets engine choice, fallback and plumbing be observed with the "
               "engine missing and present; oracle = decision table, argument identity, agreement of results")



def z03_env(idx, tier):
    """Two processes compile with full optimisation, the others (in the quick tier) without, which is twice as fast."""
    full = idx < 2 or tier == "thorough"
    return dict(VT_SHARED_CACHE="full" if full else "o0", **({} if full else dict(NUMBA_OPT="0")))


CFG["Z03"] = dict(required=['kernel_calls', 'helper_calls', 'operations', 'simulations'], workers=(0, 8), min_distinct=100, env=z03_env, budget=dict(quick=75.0, thorough=420.0))
TECH["Z03"] = "runtime monitoring: each numeric kernel, helper, whole operation and simulator is executed compiled (bounds checks on) and, in a companion process, interpreted from the same source on the same seeded call (dtypes x layouts); results, dtypes, shapes, errors and written arguments are compared"

def o0_env(idx, tier):
    return dict(VT_SHARED_CACHE="z01o0", NUMBA_OPT="0") if tier == "quick" else {}


CFG["Z01"] = dict(required=['kernels', 'subscripts', 'operations', 'simulations', 'enough', 'too_small', 'members', 'compiled_kernels', 'compiled_simulations'], workers=(6, 2), min_distinct=100, env=o0_env)
TECH["Z01"] = "runtime monitoring: every kernel, alone and inside whole operations and simulations, runs on arrays that watch each subscript (no negative position unless literal; past the end raises) and with two different fillings of fresh memory (np.empty interpreted, C heap compiled with bounds checks): results must be identical; record buffers around the needed size"

CFG["Z02"] = dict(required=['calls', 'values', 'earlier', 'repeated', 'simulations', 'kernels'], workers=(8, 0), min_distinct=100, budget=dict(quick=24.0, thorough=300.0))
TECH["Z02"] = "runtime monitoring: a call tracer (sys.monitoring) compares, around every call from outside into the library, the content of everything passed and of results returned earlier, under the workloads of all other checks; operations, simulations and kernels repeated on the same and on read-only inputs must agree bit for bit"


def get(pid):
    c = dict(DEFAULT)
    c.update(CFG.get(pid, {}))
    return c
