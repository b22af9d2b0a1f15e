"""Accepted inputs for (nearly) every numeric kernel, drawn deterministically from a seed so that two processes can build
the same call: one compiled, one interpreted."""
import ast
import importlib
import inspect

import numpy as np
from numba import njit
from numba.typed import Dict as TypedDict

import vectorbt as vbt
from vectorbt.portfolio import enums as E

MODULES = ["generic", "returns", "signals", "portfolio", "records", "indicators", "labels"]
EXTRA = {"utils.math_": None, "utils.array_": None, "base.reshape_fns": None}
NAN = np.nan


def pick(rng, opts):
    return opts[int(rng.integers(len(opts)))]


# ------------------------------------------------------------------------------------------------ callbacks

@njit
def cb_col(col, a):                       # apply: column -> column
    return a * 2


@njit
def cb_roll(i, col, a):
    return np.nansum(a) + i


@njit
def cb_roll_matrix(i, a):
    out = np.empty(a.shape[1], dtype=np.float64)
    for k in range(a.shape[1]):
        out[k] = np.nansum(a[:, k]) + i
    return out


@njit
def cb_group(idxs, col, a):
    return np.nansum(a) + len(idxs)


@njit
def cb_group_matrix(idxs, a):
    out = np.empty(a.shape[1], dtype=np.float64)
    for k in range(a.shape[1]):
        out[k] = np.nansum(a[:, k]) + len(idxs)
    return out


@njit
def cb_cell(i, col, x):
    return x * 2 + i


@njit
def cb_keep(i, col, x):
    return x > 5


@njit
def cb_reduce(col, a):
    return np.nansum(a) + col


@njit
def cb_reduce_array(col, a):
    return np.array([np.nansum(a), float(col)])


@njit
def cb_reduce_idx(col, a):
    return len(a) // 2


@njit
def cb_reduce_idx_array(col, a):
    return np.array([0, len(a) - 1])


@njit
def cb_squeeze(i, group, a):
    return np.nansum(a) + i


@njit
def cb_mapped(idxs, col, a):
    return a + len(idxs)


@njit
def cb_records(records):
    return records["size"] * 2.0


@njit
def cb_record(record):
    return record["size"] + record["price"]


@njit
def cb_choice(from_i, to_i, col):
    return np.arange(from_i + min(col, to_i - from_i), to_i)


@njit
def cb_choice_last(from_i, to_i, col):
    return np.array([to_i - 1])


CB = dict(
    apply_nb=cb_col, row_apply_nb=cb_col, rolling_apply_nb=cb_roll, rolling_matrix_apply_nb=cb_roll_matrix, expanding_apply_nb=cb_roll,
    expanding_matrix_apply_nb=cb_roll_matrix, groupby_apply_nb=cb_group, groupby_matrix_apply_nb=cb_group_matrix, applymap_nb=cb_cell,
    filter_nb=cb_keep, reduce_nb=cb_reduce, reduce_to_array_nb=cb_reduce_array, reduce_grouped_nb=cb_reduce, flat_reduce_grouped_nb=cb_reduce,
    reduce_grouped_to_array_nb=cb_reduce_array, flat_reduce_grouped_to_array_nb=cb_reduce_array, squeeze_grouped_nb=cb_squeeze,
    apply_on_mapped_nb=cb_mapped, apply_on_records_nb=cb_records, map_records_nb=cb_record, reduce_mapped_nb=cb_reduce,
    reduce_mapped_to_idx_nb=cb_reduce_idx, reduce_mapped_to_array_nb=cb_reduce_array, reduce_mapped_to_idx_array_nb=cb_reduce_idx_array,
    generate_nb=cb_choice, generate_ex_nb=cb_choice,
)

# not called directly: contexts of simulations (reached through the simulators), randomness without a seed, scratch records
SKIP = {
    "get_col_elem_nb", "get_elem_nb", "get_group_value_ctx_nb", "sort_call_seq_out_nb", "sort_call_seq_nb", "try_order_nb",
    "no_signal_func_nb", "no_adjust_sl_func_nb", "no_adjust_tp_func_nb", "dir_enex_signal_func_nb", "ls_enex_signal_func_nb", "no_pre_func_nb",
    "no_order_func_nb", "no_post_func_nb", "no_flex_order_func_nb", "simulate_from_orders_nb", "simulate_from_signals_nb",
    "simulate_from_signal_func_nb", "simulate_nb", "simulate_row_wise_nb", "flex_simulate_nb", "flex_simulate_row_wise_nb",
    "init_records_nb", "init_last_pos_record_nb", "fill_log_record_nb", "process_order_nb", "fill_entry_trades_in_position_nb",
    "raise_rejected_order_nb", "rand_choice_nb", "rand_by_prob_choice_nb", "stop_choice_nb", "ohlc_stop_choice_nb", "first_choice_nb",
    "top_n_inout_map_nb", "bottom_n_inout_map_nb", "sig_pos_rank_nb", "part_pos_rank_nb", "shuffle_call_seq_nb",
    "generate_rand_nb", "generate_rand_by_prob_nb", "generate_rand_ex_nb", "generate_rand_ex_by_prob_nb", "generate_rand_enex_nb",
    "generate_rand_enex_by_prob_nb", "shuffle_1d_nb", "shuffle_nb",
    # one column/record of what the callers below already iterate over
    "fill_order_record_nb", "update_open_pos_stats_nb", "update_pos_record_nb", "fill_trade_record_nb", "fill_position_record_nb",
    "copy_trade_record_nb",
}


# public kernels at the pinned commit; helpers extracted later are reached through their callers
KNOWN = set("""
alpha_1d_nb alpha_nb annualized_return_1d_nb annualized_return_nb annualized_volatility_1d_nb annualized_volatility_nb any_squeeze_nb
apply_and_reduce_nb apply_nb apply_on_mapped_nb apply_on_records_nb applymap_nb approx_order_value_nb argmax_reduce_nb argmin_reduce_nb asset_flow_nb
asset_returns_nb asset_value_grouped_nb asset_value_nb assets_nb atr_apply_nb atr_cache_nb bb_apply_nb bb_cache_nb benchmark_value_grouped_nb
benchmark_value_nb beta_1d_nb beta_nb between_partition_ranges_nb between_ranges_nb between_two_ranges_nb bfill_1d_nb bfill_nb
bn_cont_sat_trend_labels_nb bn_cont_trend_labels_nb bn_trend_labels_nb bottom_n_inout_map_nb breakout_labels_nb bshift_1d_nb bshift_nb
build_call_seq_nb buy_nb calmar_ratio_1d_nb calmar_ratio_nb capture_1d_nb capture_nb cash_flow_grouped_nb cash_flow_nb cash_grouped_nb
cash_in_sim_order_nb cash_nb check_group_init_cash_nb check_group_lens_nb clean_enex_1d_nb clean_enex_nb close_position_nb col_map_nb
col_map_select_nb col_range_nb col_range_select_nb cond_value_at_risk_1d_nb cond_value_at_risk_nb copy_trade_record_nb count_reduce_nb
crossed_above_1d_nb crossed_above_nb cum_returns_1d_nb cum_returns_final_1d_nb cum_returns_final_nb cum_returns_nb dd_decline_duration_nb
dd_drawdown_nb dd_recovery_duration_nb dd_recovery_duration_ratio_nb dd_recovery_return_nb describe_reduce_nb diff_1d_nb diff_nb
dir_enex_signal_func_nb down_capture_1d_nb down_capture_nb downside_risk_1d_nb downside_risk_nb drawdown_1d_nb drawdown_nb ewm_mean_1d_nb ewm_mean_nb
ewm_std_1d_nb ewm_std_nb execute_order_nb expand_mapped_nb expanding_apply_nb expanding_matrix_apply_nb expanding_max_1d_nb expanding_max_nb
expanding_mean_1d_nb expanding_mean_nb expanding_min_1d_nb expanding_min_nb expanding_std_1d_nb expanding_std_nb ffill_1d_nb ffill_nb
fill_entry_trades_in_position_nb fill_log_record_nb fill_order_record_nb fill_position_record_nb fill_trade_record_nb fillna_1d_nb fillna_nb filter_nb
final_value_nb find_ranges_nb first_choice_nb fixed_labels_apply_nb flat_reduce_grouped_nb flat_reduce_grouped_to_array_nb flatten_forder_nb
flatten_grouped_nb flatten_uniform_grouped_nb flex_simulate_nb flex_simulate_row_wise_nb fshift_1d_nb fshift_nb future_max_apply_nb
future_mean_apply_nb future_min_apply_nb future_std_apply_nb generate_enex_nb generate_ex_nb generate_nb generate_ohlc_stop_enex_nb
generate_ohlc_stop_ex_nb generate_rand_by_prob_nb generate_rand_enex_by_prob_nb generate_rand_enex_nb generate_rand_ex_by_prob_nb generate_rand_ex_nb
generate_rand_nb generate_stop_enex_nb generate_stop_ex_nb generate_stop_signal_nb get_col_elem_nb get_drawdowns_nb get_elem_nb get_entry_trades_nb
get_exit_trades_nb get_free_cash_diff_nb get_group_value_ctx_nb get_group_value_nb get_long_size_nb get_positions_nb get_return_nb get_short_size_nb
get_stop_price_nb get_symmetric_neg_th_nb get_symmetric_pos_th_nb get_trade_stats_nb gross_exposure_nb group_mean_reduce_nb groupby_apply_nb
groupby_matrix_apply_nb i_group_any_reduce_nb information_ratio_1d_nb information_ratio_nb init_cash_grouped_nb init_cash_nb init_last_pos_record_nb
init_records_nb is_col_idx_sorted_nb is_col_sorted_nb is_grouped_nb is_mapped_expandable_nb local_extrema_apply_nb ls_enex_signal_func_nb ma_apply_nb
ma_cache_nb ma_nb macd_apply_nb macd_cache_nb map_records_nb mapped_to_mask_nb mapped_value_counts_nb max_drawdown_1d_nb max_drawdown_nb max_reduce_nb
max_squeeze_nb mean_labels_apply_nb mean_reduce_nb median_reduce_nb min_reduce_nb min_squeeze_nb mstd_apply_nb mstd_cache_nb mstd_nb nancnt_nb
nancumprod_nb nancumsum_nb nanmax_nb nanmean_nb nanmedian_nb nanmin_nb nanprod_nb nanstd_1d_nb nanstd_nb nansum_nb no_adjust_sl_func_nb
no_adjust_tp_func_nb no_flex_order_func_nb no_order_func_nb no_post_func_nb no_pre_func_nb no_signal_func_nb norm_avg_index_1d_nb norm_avg_index_nb
nth_index_1d_nb nth_index_nb nth_index_reduce_nb nth_reduce_nb obv_custom_nb ohlc_stop_choice_nb omega_ratio_1d_nb omega_ratio_nb order_nb
order_not_filled_nb order_nothing_nb part_pos_rank_nb partition_ranges_nb pct_change_1d_nb pct_change_nb pct_trend_labels_nb
position_coverage_grouped_nb position_mask_grouped_nb process_order_nb raise_rejected_order_nb rand_by_prob_choice_nb rand_choice_nb range_coverage_nb
range_duration_nb ranges_to_mask_nb rank_nb record_col_map_select_nb record_col_range_select_nb reduce_grouped_nb reduce_grouped_to_array_nb
reduce_mapped_nb reduce_mapped_to_array_nb reduce_mapped_to_idx_array_nb reduce_mapped_to_idx_nb reduce_nb reduce_to_array_nb replace_inf_price_nb
resolve_dir_conflict_nb resolve_opposite_entry_nb resolve_signal_conflict_nb resolve_stop_price_and_slippage_nb returns_1d_nb returns_in_sim_order_nb
returns_nb rolling_alpha_nb rolling_annualized_return_nb rolling_annualized_volatility_nb rolling_apply_nb rolling_beta_nb rolling_calmar_ratio_nb
rolling_capture_nb rolling_cond_value_at_risk_nb rolling_cum_returns_final_nb rolling_down_capture_nb rolling_downside_risk_nb
rolling_information_ratio_nb rolling_matrix_apply_nb rolling_max_1d_nb rolling_max_drawdown_nb rolling_max_nb rolling_mean_1d_nb rolling_mean_nb
rolling_min_1d_nb rolling_min_nb rolling_omega_ratio_nb rolling_sharpe_ratio_nb rolling_sortino_ratio_nb rolling_std_1d_nb rolling_std_nb
rolling_tail_ratio_nb rolling_up_capture_nb rolling_value_at_risk_nb row_apply_nb rsi_apply_nb rsi_cache_nb sell_nb set_by_mask_1d_nb
set_by_mask_mult_1d_nb set_by_mask_mult_nb set_by_mask_nb sharpe_ratio_1d_nb sharpe_ratio_nb should_update_stop_nb shuffle_1d_nb shuffle_call_seq_nb
shuffle_nb sig_pos_rank_nb signals_to_size_nb simulate_from_orders_nb simulate_from_signal_func_nb simulate_from_signals_nb simulate_nb
simulate_row_wise_nb sort_call_seq_nb sort_call_seq_out_nb sortino_ratio_1d_nb sortino_ratio_nb squeeze_grouped_nb stack_expand_mapped_nb
std_reduce_nb stoch_apply_nb stoch_cache_nb stop_choice_nb sum_grouped_nb sum_reduce_nb sum_squeeze_nb tail_ratio_1d_nb tail_ratio_nb
top_n_inout_map_nb total_benchmark_return_nb total_profit_grouped_nb total_profit_nb total_return_apply_nb total_return_nb trade_losing_streak_nb
trade_winning_streak_nb trend_labels_apply_nb true_range_nb try_order_nb up_capture_1d_nb up_capture_nb update_open_pos_stats_nb update_pos_record_nb
update_value_nb value_at_risk_1d_nb value_at_risk_nb value_counts_nb value_in_sim_order_nb value_nb
""".split())


def kernels():
    """[(module, name, function, {parameter: annotation}, number of defaults)]"""
    out = []
    for m in MODULES:
        d = importlib.import_module(f"vectorbt.{m}.nb")
        for f in ast.parse(inspect.getsource(d)).body:
            if isinstance(f, ast.FunctionDef) and f.decorator_list and f.name in KNOWN and f.name not in SKIP:
                ann = {a.arg: ast.unparse(a.annotation).replace("tp.", "") if a.annotation else "" for a in f.args.args}
                out.append((m, f.name, getattr(d, f.name), ann, len(f.args.defaults)))
    return out


# ------------------------------------------------------------------------------------------------ values

BOOLS = ("adjust", "after_false", "allow_gaps", "cash_sharing", "d_ewm", "entry_first", "ewm", "flex_2d", "free", "from_other",
         "in_c_order", "is_open_safe", "macd_ewm", "normalize", "overlapping", "pick_first", "signal_ewm", "skip_until_exit", "until_next",
         "update_value", "lock_cash", "allow_partial", "raise_reject", "log", "entry_pick_first", "exit_pick_first", "hit_below",
         "is_entry", "is_exit", "is_long_entry", "is_long_exit", "is_short_entry", "is_short_exit")
ENUMS = dict(size_type=6, direction=3, call_seq_type=2, mode=5, status=3, status_info=11, upon_stop_exit=4, accumulate=4,
             stop_exit_price=4, conflict_mode=5, upon_dir_conflict=5, upon_opposite_entry=5, upon_stop_update=3)


def layout(rng, a, how):
    """The same values in another memory layout."""
    if how == "F" and a.ndim == 2:
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return a[::-1].copy()[::-1]
    return a.copy()


class Draw:
    """One case: shape, dtype and layout are shared by all arguments."""

    def __init__(self, rng, dtype="f", how="C", shape=None):
        self.rng, self.dtype, self.how = rng, dtype, how
        n = pick(rng, [1, 1, 2, 3, 5, 8, 12])
        c = pick(rng, [1, 1, 2, 3])
        self.shape = shape or (n, c)
        self.lens = self.group_lens()
        self.col_lens = None
        self.orders = None

    def group_lens(self):
        out, left = [], self.shape[1]
        while left:
            k = int(self.rng.integers(1, left + 1))
            out.append(k)
            left -= k
        return np.array(out, dtype=np.int64)

    def lay(self, a):
        return layout(self.rng, a, self.how)

    def floats(self, shape, scale=10, nan=True):
        rng = self.rng
        k = rng.random()
        if k < 0.15:
            a = np.full(shape, NAN) if nan else np.ones(shape)
        elif k < 0.25:
            a = np.full(shape, 2.5)
        elif k < 0.4:
            a = rng.integers(-2, 3, shape).astype(float)
        else:
            a = np.round(rng.normal(0, 1, shape) * scale, 2)
        if nan and rng.random() < 0.5:
            a[rng.random(shape) < 0.3] = NAN
        return a

    def typed(self, shape):
        if self.dtype == "i":
            return self.rng.integers(-3, 6, shape)
        if self.dtype == "b":
            return self.rng.random(shape) < 0.5
        return self.floats(shape)

    def bools(self, shape):
        k = self.rng.random()
        if k < 0.1:
            return np.zeros(shape, bool)
        if k < 0.2:
            return np.ones(shape, bool)
        return self.rng.random(shape) < pick(self.rng, [0.15, 0.5])

    def prices(self, shape):
        return np.round(np.exp(np.cumsum(self.rng.normal(0, 0.08, shape), axis=0)) * 10, 2)

    def returns(self, shape):
        a = np.round(self.rng.normal(0, 0.05, shape), 3)
        k = self.rng.random()
        if k < 0.1:
            a[...] = 0
        elif k < 0.2:
            a = np.abs(a) + 0.001
        if self.rng.random() < 0.3:
            a[self.rng.random(shape) < 0.2] = NAN
        return a

    def window(self):
        n = self.shape[0]
        return int(pick(self.rng, [1, 2, 3, n, n + 1, n + 5]))

    def col_arr(self):
        if self.col_lens is None:
            n, c = self.shape
            m = int(pick(self.rng, [0, 1, 3, n, 2 * n]))
            live = self.rng.permutation(c)[:int(self.rng.integers(1, c + 1))]
            cols = np.sort(self.rng.choice(live, m)) if m else np.zeros(0, np.int64)
            self.cols = cols.astype(np.int64)
            self.col_lens = np.bincount(self.cols, minlength=c).astype(np.int64)
        return self.cols

    def col_map(self):
        cols = self.col_arr()
        return np.arange(len(cols)), self.col_lens

    def col_range(self):
        self.col_arr()
        e = np.cumsum(self.col_lens)
        out = np.column_stack([e - self.col_lens, e]).astype(np.int64)
        out[self.col_lens == 0] = -1
        return out

    def order_records(self):
        if self.orders is None:
            cols = self.col_arr()
            r = np.zeros(len(cols), E.order_dt)
            r["col"] = cols
            n = self.shape[0]
            for k in range(self.shape[1]):
                sel = np.flatnonzero(cols == k)
                m = min(len(sel), n)
                r["idx"][sel] = np.sort(np.concatenate([self.rng.choice(n, m, replace=False), self.rng.integers(0, n, len(sel) - m)]))
            r["id"] = np.arange(len(cols))
            r["size"] = self.rng.integers(1, 5, len(cols)) * 0.5
            r["price"] = np.round(self.rng.random(len(cols)) * 10 + 1, 2)
            r["fees"] = pick(self.rng, [0.0, 0.25]) * self.rng.integers(0, 3, len(cols))
            r["side"] = self.rng.integers(0, 2, len(cols))
            self.orders = r
        return self.orders

    def trade_records(self, call):
        nb = importlib.import_module("vectorbt.portfolio.nb")
        return call(nb.get_exit_trades_nb)(self.order_records(), self.prices(self.shape), self.col_map())

    def range_arrays(self):
        m = len(self.col_arr())
        n = self.shape[0]
        s = self.rng.integers(0, n, m)
        st = self.rng.integers(0, 2, m)
        e = np.array([int(self.rng.integers(a + 1 if t and a + 1 < n else a, n)) for a, t in zip(s, st)], dtype=np.int64).reshape(m)
        return s, e, st

    def flex(self, v_of):
        """A value for each cell given as scalar array, per row, per column or in full."""
        n, c = self.shape
        sh = pick(self.rng, [(1, 1), (n, 1), (1, c), (n, c)])
        return v_of(sh)

    def extrema(self):
        n, c = self.shape
        out = np.zeros((n, c), dtype=np.int64)
        for k in range(c):
            pos = np.sort(self.rng.choice(n, int(self.rng.integers(0, n + 1)), replace=False))
            s = pick(self.rng, [1, -1])
            for p in pos:
                out[p, k] = s
                s = -s
        return out


def build(rng, mod, name, ann, n_defaults, dtype="f", how="C", call=None, shape=None, drop_defaults=None):
    """Positional arguments of one accepted call (None if the kernel is not covered by the generator)."""
    d = Draw(rng, dtype, how, shape)
    n, c = d.shape
    one = lambda a: "Array1d" in a
    names = list(ann)
    if n_defaults and (rng.random() < 0.3 if drop_defaults is None else drop_defaults):
        names = names[:len(names) - (int(rng.integers(1, n_defaults + 1)) if drop_defaults is None else n_defaults)]
    out = []
    ranges = d.range_arrays() if any(x in names for x in ("start_idx_arr", "end_idx_arr", "status_arr", "valley_idx_arr")) else None
    window = d.window()
    lists = None
    open_ = high = low = None
    close = d.prices(d.shape)
    if "high" in names:
        open_ = np.round(close * (1 + rng.normal(0, 0.02, d.shape)), 2)
        high, low = np.maximum(open_, close) + 0.1, np.minimum(open_, close) - 0.1
    if name.endswith("_cache_nb") or name.endswith("_apply_nb") and mod == "indicators":
        k = int(rng.integers(1, 4))
        lists = dict(windows=[d.window() for _ in range(k)], ewms=[bool(rng.integers(2)) for _ in range(k)], alphas=[float(rng.integers(1, 4)) for _ in range(k)])
    adjust, ddof = bool(rng.integers(2)), int(rng.integers(0, 2))
    for p in names:
        a = ann[p]
        sh = n if one(a) else d.shape
        if p == "args":
            continue
        if p.endswith("_func_nb"):
            if name == "apply_and_reduce_nb":
                v = cb_col if p == "apply_func_nb" else cb_reduce
            elif name == "generate_enex_nb":
                v = cb_choice if p.startswith("entry") else cb_choice_last
            elif name == "rank_nb":
                nb = importlib.import_module("vectorbt.signals.nb")
                v = nb.sig_pos_rank_nb
            elif name == "mapped_to_mask_nb":
                nb = importlib.import_module("vectorbt.records.nb")
                v = pick(rng, [nb.top_n_inout_map_nb, nb.bottom_n_inout_map_nb])
            else:
                v = CB[name]
        elif p in ("apply_args", "reduce_args", "entry_args", "exit_args"):
            v = ()
        elif p == "seed":
            v = int(rng.integers(1000))
        elif p in ("shape", "target_shape"):
            v = d.shape
        elif p == "exec_state":
            v = E.ExecuteOrderState(float(rng.integers(0, 100)), float(rng.integers(-3, 4)), float(rng.integers(0, 5)), float(rng.integers(0, 100)))
        elif p == "state":
            v = E.ProcessOrderState(100.0, float(rng.integers(-3, 4)), float(rng.integers(0, 5)), 80.0, 10.0, 100.0, 0, 0)
        elif p == "order":
            v = E.Order(*[float(rng.integers(-5, 6)) or 1.0, 9.5, int(rng.integers(6)), int(rng.integers(3)), 0.01, 1.0, 0.01, 0.0, np.inf, NAN, 0.0,
                          bool(rng.integers(2)), True, False, True])
        elif p == "order_result":
            v = E.OrderResult(1.0, 9.5, 0.1, 0, 0, -1)
        elif p == "exec_price":
            v = 9.5
        elif p in ENUMS and "Array" not in a:
            v = int(rng.integers(ENUMS[p]))
        elif p == "accumulate":
            v = int(rng.integers(4))
        elif p in BOOLS and "Array" not in a and "List" not in a or a == "bool":
            if p == "adjust":
                v = adjust
            elif p == "log" or p == "raise_reject":
                v = False
            elif p == "flex_2d":
                v = True
            else:
                v = bool(rng.integers(2))
        elif p == "ewm":
            v = bool(rng.integers(2))
        elif p in ("numerically_unstable",):
            v = False
        elif p in ("ddof",):
            v = ddof
        elif p in ("i", "col", "group", "from_col"):
            v = 0
        elif p == "to_col":
            v = c
        elif p == "n_cols":
            v = c
        elif p == "index_len":
            v = n
        elif p == "n_uniques":
            v = 3
        elif p == "codes":
            v = rng.integers(0, 3, d.shape if not one(a) else len(d.col_arr()))
        elif p == "groups":
            cut = int(rng.integers(0, n + 1))
            v = TypedDict() if not hasattr(cb_col, "__wrapped__") and hasattr(cb_col, "py_func") else {}
            k = 0
            for g in (np.arange(cut), np.arange(cut, n)):
                if len(g):
                    v[k] = g
                    k += 1
        elif p == "group_lens":
            v = d.lens
            if "uniform" in name:
                v = np.array([1] * c) if c % 2 or rng.random() < 0.5 else np.array([2] * (c // 2))
        elif p in ("col_map",):
            v = d.col_map()
        elif p == "col_range":
            v = d.col_range()
        elif p == "new_cols":
            v = rng.integers(0, c, int(rng.integers(1, 4)))
        elif p == "col_arr":
            v = d.col_arr()
        elif p == "id_arr":
            v = np.arange(len(d.col_arr()))
        elif p == "idx_arr":
            cols = d.col_arr()
            v = np.zeros(len(cols), dtype=np.int64)
            for k in range(c):
                sel = np.flatnonzero(cols == k)
                m = min(len(sel), n)
                v[sel] = np.concatenate([np.sort(rng.choice(n, m, replace=False)), rng.integers(0, n, len(sel) - m)])
        elif p == "mapped_arr":
            v = d.typed(len(d.col_arr())) if d.dtype != "b" else d.floats(len(d.col_arr()))
        elif p == "fill_value":
            v = NAN if d.dtype == "f" or mod == "records" else pick(rng, [0, NAN])
        elif p == "index_lens":
            v = np.full(c, n)
        elif p in ("start_idx_arr",):
            v = ranges[0]
        elif p == "end_idx_arr":
            v = ranges[1]
        elif p == "valley_idx_arr":
            v = (ranges[0] + ranges[1]) // 2
        elif p == "status_arr":
            v = ranges[2]
        elif p.endswith("_val_arr"):
            v = np.round(rng.random(len(d.col_arr())) * 10 + 1, 1)
        elif p in ("records", "trade_records") and ("trade" in name or name == "get_positions_nb"):
            v = d.trade_records(call or (lambda f: f))
            d.cols = v["col"].astype(np.int64)
            d.col_lens = np.bincount(d.cols, minlength=c).astype(np.int64)
        elif p in ("records", "order_records"):
            v = d.order_records()
        elif p == "order_records":
            v = d.order_records()
        elif p in ("entries", "exits", "position_mask") or mod == "signals" and p in ("a", "b"):
            v = d.bools(sh)
        elif p in ("mask",):
            v = d.bools(sh)
        elif p == "reset_by":
            v = None if rng.random() < 0.5 else d.bools(d.shape)
        elif p in ("stop", "sl_stop", "tp_stop") and mod == "signals":
            v = d.flex(lambda s: np.where(rng.random(s) < 0.3, NAN, np.round(rng.random(s) * 0.2 + 0.01, 2)))
        elif p in ("trailing", "sl_trail", "reverse") and mod == "signals":
            v = d.flex(lambda s: rng.random(s) < 0.5)
        elif p == "stop_price_out":
            v = np.full(d.shape, NAN)
        elif p == "stop_type_out":
            v = np.full(d.shape, -1, dtype=np.int64)
        elif p in ("pos_th", "neg_th"):
            v = d.flex(lambda s: np.round(rng.random(s) * 0.2 + 0.01, 2))
        elif p == "local_extrema":
            v = d.extrema()
        elif p == "open":
            v = open_ if "Array" in a else float(open_[0, 0])
        elif p == "high":
            v = high if "Array" in a else float(high[0, 0])
        elif p == "low":
            v = low if "Array" in a else float(low[0, 0])
        elif p in ("ts", "close"):
            v = close
            if mod in ("generic", "labels", "indicators") and rng.random() < 0.4:
                v = close.copy()
                v[rng.random(d.shape) < 0.2] = NAN
            if name == "find_ranges_nb":
                v = d.typed(d.shape)
            if "Array" not in a:
                v = float(close[0, 0])
        elif p == "gap_value":
            v = {"f": NAN, "i": -1, "b": False}[d.dtype]
        elif p in ("returns", "benchmark_rets"):
            v = d.returns(sh)
        elif p == "idxs":
            v = np.arange(n)
        elif p in ("windows", "ewms", "alphas"):
            v = lists[p]
        elif p in ("k_windows", "fast_windows", "slow_windows"):
            v = lists["windows"]
        elif p in ("d_windows", "signal_windows"):
            v = lists["windows"][::-1]
        elif p in ("d_ewms", "macd_ewms", "signal_ewms"):
            v = lists["ewms"]
        elif p.endswith("cache_dict") or p == "tr":
            v = None  # filled below
        elif p in ("window", "span") or p.endswith("_window"):
            v = window
        elif p == "minp":
            v = int(rng.integers(1, window + 1)) if "Optional" not in a or rng.random() < 0.6 else None
            if "span" not in names and "window" in names:
                v = None if v is None else min(v, window)
        elif p == "n" and name in ("nth_reduce_nb", "nth_index_reduce_nb"):
            v = int(rng.integers(-n, n))
        elif p == "n" and name.startswith("nth_index"):
            v = int(rng.integers(-n - 1, n + 1))
        elif p in ("n", "wait", "entry_wait", "exit_wait"):
            v = int(pick(rng, [1, 1, 2, n, n + 2] if p == "n" else [0, 1, 1, 2, n + 1]))
            if p.endswith("wait") and name == "generate_enex_nb" or "enex" in name and p == "exit_wait":
                v = max(v, 1)
        elif p == "perc":
            v = np.array([0.1, 0.5])
        elif p == "cutoff":
            v = float(np.round(rng.random() * 0.5, 2))
        elif p in ("value",) and mod == "generic":
            v = {"f": 1.5, "i": 4, "b": True}[d.dtype]
        elif p == "values":
            v = d.typed(n if one(a) else d.shape)
        elif p == "init_value" and mod == "returns":
            v = rng.random(c) * 100 + 1 if one(a) else 50.0
        elif p == "value" and mod == "returns":
            v = np.round(rng.random(n if one(a) else d.shape) * 100, 1)
        elif p == "ann_factor":
            v = float(pick(rng, [252.0, 365.0, 12.0, 1.0]))
        elif p in ("init_cash_grouped",):
            v = np.round(rng.random(len(d.lens)) * 100, 1)
        elif p == "init_cash":
            sharing = out[names.index("cash_sharing")] if "cash_sharing" in names and names.index("cash_sharing") < len(out) else None
            if name in ("init_cash_nb", "init_cash_grouped_nb", "check_group_init_cash_nb"):
                sharing = bool(rng.integers(2))
                d.sharing = sharing
                v = np.round(rng.random(len(d.lens) if sharing else c) * 100 + 1, 1)
            else:
                v = np.round(rng.random(c) * 100 + 1, 1)
        elif p in ("total_profit", "last_position", "last_val_price"):
            v = np.round(rng.normal(0, 10, c), 1)
        elif p == "call_seq":
            v = np.array([np.concatenate([rng.permutation(k) for k in d.lens]) for _ in range(n)], dtype=np.int64).reshape(n, c)
        elif p.endswith("_grouped") and "Array2d" in a:
            v = np.round(rng.normal(0, 10, (n, len(d.lens))), 1)
        elif p in ("arr", "arr1", "arr2", "a"):
            v = d.typed(sh) if mod in ("generic",) else d.floats(sh, nan=False)
            if p == "a" and name.startswith(("row_apply", "apply_nb", "ranges")) and d.dtype == "b":
                v = d.floats(sh)
            if p in ("arr1", "arr2"):
                v = d.floats(sh, 1)
        elif "Array" in a:
            v = d.floats(sh, nan=mod != "portfolio") if mod == "portfolio" else np.round(rng.random(sh) * 10 + 1, 2)
        elif p in ("size_granularity",):
            v = pick(rng, [NAN, 0.5, 1.0])
        elif p in ("max_size",):
            v = pick(rng, [np.inf, 3.0])
        elif p in ("min_size",):
            v = pick(rng, [0.0, 1.0])
        elif p == "percent":
            v = pick(rng, [NAN, 0.5])
        elif p in ("reject_prob",):
            v = 0.0
        elif p in ("fees", "slippage"):
            v = pick(rng, [0.0, 0.01])
        elif p == "levy_alpha":
            v = 2.0
        elif p in ("position_now", "position_before", "size") or a == "float" and "cash" not in p and "price" not in p and mod == "portfolio" and rng.random() < 0.1:
            v = float(rng.integers(-3, 4))
            if name == "buy_nb" or name == "sell_nb" or name == "get_trade_stats_nb":
                v = abs(v) + 1.0
        elif a == "int":
            v = int(rng.integers(1, 4))
        elif a == "float" or a == "" or a == "Scalar":
            v = float(np.round(rng.random() * 10 + 0.5, 2))
        else:
            return None, d
        if isinstance(v, np.ndarray) and v.dtype.names is None and v.ndim and p not in ("stop_price_out", "stop_type_out"):
            v = d.lay(v)
        out.append(v)
    if name == "rank_nb":
        m = pick(rng, [0, 1])
        nb = importlib.import_module("vectorbt.signals.nb")
        out[names.index("rank_func_nb")] = [nb.sig_pos_rank_nb, nb.part_pos_rank_nb][m]
        out += [np.full(c, -1, dtype=np.int64), bool(rng.integers(2))][:2 - m]
    if name == "mapped_to_mask_nb":
        out.append(int(rng.integers(1, 4)))
    if "cash_sharing" in names and hasattr(d, "sharing"):
        out[names.index("cash_sharing")] = d.sharing
    if mod == "indicators" and any(x is None for x in out):
        _caches(rng, d, name, names, out, lists, call or (lambda f: f))
    return tuple(out), d


def _caches(rng, d, name, names, out, lists, call):
    """Indicator caches belong to the parameters the apply function is called with."""
    nb = importlib.import_module("vectorbt.indicators.nb")
    arg = dict(zip(names, out))
    w = lists["windows"][-1]
    ewm = lists["ewms"][-1]
    adjust, ddof = arg.get("adjust", False), arg.get("ddof", 0)
    W, B = lists["windows"], lists["ewms"]
    new = {}
    if name in ("ma_apply_nb", "mstd_apply_nb", "rsi_apply_nb", "atr_apply_nb", "bb_apply_nb"):
        new.update(window=w, ewm=ewm)
    c = arg.get("close")
    if name == "ma_apply_nb":
        new["cache_dict"] = call(nb.ma_cache_nb)(c, W, B, adjust)
    elif name == "mstd_apply_nb":
        new["cache_dict"] = call(nb.mstd_cache_nb)(c, W, B, adjust, ddof)
    elif name == "bb_apply_nb":
        new["ma_cache_dict"], new["mstd_cache_dict"] = call(nb.bb_cache_nb)(c, W, B, lists["alphas"], adjust, ddof)
    elif name == "rsi_apply_nb":
        new["cache_dict"] = call(nb.rsi_cache_nb)(c, W, B, adjust)
    elif name == "stoch_apply_nb":
        new.update(k_window=W[-1], d_window=W[0], d_ewm=ewm)
        new["cache_dict"] = call(nb.stoch_cache_nb)(arg["high"], arg["low"], c, W, W[::-1], B, adjust)
    elif name == "macd_apply_nb":
        new.update(fast_window=W[-1], slow_window=W[-1], signal_window=W[0], macd_ewm=ewm, signal_ewm=ewm)
        new["cache_dict"] = call(nb.macd_cache_nb)(c, W, W, W[::-1], B, B, adjust)
    elif name == "atr_apply_nb":
        new["tr"], new["cache_dict"] = call(nb.atr_cache_nb)(arg["high"], arg["low"], c, W, B, adjust)
    for k, v in new.items():
        out[names.index(k)] = v
