"""Single source of the property texts: `python -m vt.props` rewrites properties.jsonl."""
import json, os

I, H, C, S, P, F = "inputs", "histories", "configurations", "schedules", "programs", "fault_sequences"
PROPS = []


NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **(dict(observe_at=observe) if observe else {}), hook_needed=None)))


PF = "vectorbt/portfolio/"
# ------------------------------------------------------------------ portfolio
prop("P01", "Every order fills, is ignored or is rejected exactly as its rules say",
     "For any account state (cash, position, debt, free cash, valuation) and any order (size type, direction, price, slippage, fees, fixed fees, min/max size, size granularity, rejection probability, lock-cash, partial-fill and raise-on-reject flags), order execution either raises the documented error, or reports filled/ignored/rejected with the documented reason, fill size, adjusted price, fees and side, and returns the resulting account state. Fills never spend more cash than available, never cross zero when the direction forbids it, respect size limits and granularity, and a non-filled order leaves the state unchanged.",
     [I, H], "all reachable account states x all order field combinations, incl. NaN/inf/zero/tiny values and rounding-edge sizes",
     "The tests execute a few dozen hand-picked states; the interaction of lock_cash, leverage debt, percent sizing, granularity, partial fills and direction is a product space they sample along single axes.",
     [PF + "nb.py", PF + "enums.py", "vectorbt/utils/math_.py"],
     [("buy/sell resolution", "portfolio/nb.py: buy_nb, sell_nb"), ("order validation and size-type conversion", "portfolio/nb.py: execute_order_nb, process_order_nb"), ("tolerant float comparison", "utils/math_.py")])
prop("P02", "Cash and assets are conserved across a whole simulation",
     "Over any simulated history, every column's cash equals initial cash plus cash flows of its fills (price times size, signed by side, minus fees) and its asset holdings equal the signed sum of filled sizes; group cash is the sum over its members. The balances, holdings, flows, position masks and free cash reported by the finished portfolio, rebuilt from order records, equal at each bar the state the simulator itself held, for separate, grouped and shared cash and also when initial cash is auto-aligned.",
     [I, H, C], "all order sequences, init-cash modes, groupings, cash sharing, call sequences",
     "Tests compare fixed balances for 5-bar histories; conservation must hold on every history and between two independent code paths (simulator and reconstruction).",
     [PF + "nb.py", PF + "base.py"],
     [("flows from records", "portfolio/nb.py: asset_flow_nb, assets_nb, cash_flow_nb, cash_nb, init_cash_nb"), ("simulator state update", "portfolio/nb.py: update state after process_order_nb"), ("log records of pre/post state", "portfolio/nb.py: fill_log_record_nb")])
prop("P03", "No look-ahead: what happened until a bar never depends on later bars",
     "Truncating or arbitrarily rewriting all inputs after bar t (prices, sizes, signals, stops, fees, callbacks' data) leaves every order, log and account state at bars up to t bit-for-bit unchanged, for every simulation entry point.",
     [I, H, C], "all inputs, all cut points t, all simulators (orders, signals with stops, order functions), grouping and cash sharing",
     "A look-ahead shows only when two histories with the same prefix and different futures are compared; the tests run single histories.",
     [PF + "nb.py", PF + "base.py"],
     [("row-by-row loops reading element i only", "portfolio/nb.py: simulate_* functions"), ("previous-close and open valuation", "portfolio/nb.py: price/-inf/inf resolution")])
prop("P04", "Columns and groups never influence each other unless they share cash",
     "Simulating many columns at once yields for each column (or each cash-sharing group) exactly the orders, logs and metrics obtained by simulating that column or group alone with its own slice of every argument, and inserting, removing or rearranging other groups changes nothing but column numbering and record ids.",
     [I, C], "all column sets, groupings, per-column and per-element arguments",
     "Tests use identical or three fixed columns, so state leaking across columns (or an argument indexed by the wrong column) is usually invisible.",
     [PF + "nb.py", PF + "base.py", "vectorbt/base/reshape_fns.py"],
     [("per-group state slices", "portfolio/nb.py: simulate_from_orders_nb, simulate_from_signal_func_nb"), ("flexible element selection", "base/reshape_fns.py: flex_select_auto_nb")])
prop("P05", "Each bar's signals resolve to exactly one documented order decision",
     "For any long/short entry and exit signals, current position, accumulation mode, conflict mode, direction-conflict mode and opposite-entry mode, the simulation from signals emits at each bar exactly the order (or no order) the documented resolution prescribes - kept/ignored signals, close, reduce, reverse, add - with the size and direction implied by size, size type and accumulation; entries and exits given with a direction are equivalent to the long/short form.",
     [I, H, C], "all signal combinations x position states x mode enums x size types",
     "The mode product (accumulate x conflict x direction conflict x opposite entry x size type) times position state has thousands of cells; tests assert selected rows of it.",
     [PF + "nb.py", PF + "base.py", PF + "enums.py"],
     [("conflict resolution", "portfolio/nb.py: resolve_signal_conflict_nb, resolve_dir_conflict_nb, resolve_opposite_entry_nb"), ("signal to size", "portfolio/nb.py: signals_to_size_nb"), ("direction-aware signals", "portfolio/base.py: from_signals; portfolio/nb.py: dir_enex_signal_func_nb, ls_enex_signal_func_nb")])
prop("P06", "Stop-loss, trailing stop and take-profit fire at the right bar and price",
     "In simulation from signals, a position with a stop is exited (or closed, reduced, reversed per stop exit mode) at the first bar whose open/high/low reaches the stop level derived from the entry price and percentage, a trailing stop follows the best price seen since entry and never loosens, stop-loss is checked before take-profit, gaps fill at the open, and the execution price, slippage, entry-price base and update-on-increase follow the configured modes; no stop fires before entry or without a position.",
     [I, H, C], "all OHLC paths, stop levels, stop modes, entries, re-entries, pyramiding and user adjust functions",
     "Stops are stateful over paths; tests cover monotone 5-bar paths with one entry.",
     [PF + "nb.py", PF + "base.py", PF + "enums.py"],
     [("stop detection", "portfolio/nb.py: get_stop_price_nb"), ("stop state updates", "portfolio/nb.py: simulate_from_signal_func_nb"), ("should-update resolution", "portfolio/nb.py: should_update_stop_nb")])
prop("P07", "Cash-sharing groups settle every bar in call order from one cash pot",
     "Within a cash-sharing group all orders of a bar draw on and pay into the same cash in exactly the given call order, group value used for percent and target sizing includes every member's holdings, and automatic call ordering executes columns in ascending order of the approximated order value so that sells release cash before buys need it. The recorded call sequence is at each bar a permutation of the group's columns and is the order actually used.",
     [I, H, C], "all group sizes, call sequences (default, reversed, random, custom, auto), size types and price shocks",
     "Ordering effects appear only when cash binds inside a group; tests check a few rebalancing rows.",
     [PF + "nb.py", PF + "base.py", PF + "enums.py"],
     [("auto call sequence", "portfolio/nb.py: approx_order_value_nb, auto_call_seq_ctx_nb, simulate_from_orders_nb"), ("call sequence builder", "portfolio/nb.py: build_call_seq, require_call_seq"), ("group value", "portfolio/nb.py: get_group_value_nb")])
prop("P08", "All simulation front ends give the same result for the same orders",
     "Orders expressed through the array interface, through an order function iterating by column, by row, through the flexible (multi-order) variants, through signals that encode the same trades, or through the compiled or interpreted path of the order-function interface produce identical order records, logs and final state. Every callback runs in the documented nesting and order, and the context it receives (position, cash, value, last price, last return, open-position and trade state) equals the account state at that moment.",
     [I, P, C], "all order arrays, groupings, cash sharing, segment masks, update/valuation flags, simulator variants",
     "Each simulator is a separate copy of the loop; tests compare them on one fixed price series.",
     [PF + "nb.py", PF + "base.py", PF + "enums.py"],
     [("simulator variants", "portfolio/nb.py: simulate_from_orders_nb, simulate_nb, simulate_row_wise_nb, flex_simulate_nb, flex_simulate_row_wise_nb"), ("contexts", "portfolio/enums.py")])
prop("P09", "Trades and positions partition the orders and conserve size, fees and PnL",
     "Entry trades, exit trades and positions derived from any order records partition the filled volume of each column: sizes, fees and PnL of trades in a position sum to the position's, PnL equals exit value minus entry value minus fees (sign by direction), entry and exit prices are the size-weighted averages of their fills, returns, durations, status, direction, parent ids and open-trade marking at the last close follow. Summed over a column, trade PnL equals the portfolio's total profit, and win/loss statistics follow from the PnL.",
     [I, H], "all order sequences with reversals, pyramiding, partial exits, fees, open ends",
     "Averages and splits depend on the whole order sequence; tests fix a handful of sequences.",
     [PF + "nb.py", PF + "trades.py"],
     [("trade construction", "portfolio/nb.py: get_entry_trades_nb, get_exit_trades_nb, get_positions_nb, update_open_trade_stats_nb"), ("trade statistics", "portfolio/trades.py: Trades, EntryTrades, ExitTrades, Positions")])
prop("P10", "Portfolio value, returns and metrics equal their definitions at every bar",
     "Portfolio value is cash plus holdings at close, returns are its relative change (initial cash as first base), and asset value, exposures, total profit, final value, total return, market value and return, cumulative returns, drawdowns and trade-based statistics are the documented functions of value, flows, cash and close, per column and per group; a group's money metrics are the sum over its members. The summary statistics table reports the same numbers as the individual accessors.",
     [I, H, C], "all portfolios, groupings, frequencies, missing prices",
     "Definitions must hold for each histories/grouping pair; tests compare constants computed by the code once.",
     [PF + "nb.py", PF + "base.py"],
     [("value and returns", "portfolio/nb.py: value_nb, value_in_sim_order_nb, returns_in_sim_order_nb, asset_returns_nb, asset_value_nb, gross_exposure_nb, market_value_nb, total_profit_nb"), ("accessors", "portfolio/base.py")])
prop("P11", "Selecting columns or regrouping a portfolio commutes with analysing it",
     "Taking any column, group or subset of a portfolio (or enabling, changing or disabling grouping when cash is not shared) and then computing any series, record set or metric gives the same result as computing it first and selecting afterwards, or as simulating the selection itself.",
     [I, C], "all portfolios x all index expressions x all accessors",
     "The tests index three fixed portfolios by first column; the accessor x selection product is not explored.",
     [PF + "base.py", "vectorbt/base/array_wrapper.py", "vectorbt/records/base.py", "vectorbt/records/col_mapper.py"],
     [("indexing propagation", "portfolio/base.py: indexing_func; records/base.py: indexing_func_meta; base/array_wrapper.py: indexing_func_meta")])
prop("P12", "Order and log records tell one consistent, chained history",
     "Order ids and log ids are unique and assigned in simulation order, records of a column are time-ordered, every processed order yields exactly one log whose request fields equal the order asked for and whose result fields equal the fill, each filled log corresponds to exactly one order record with the same size, price, fees and side, and each log's post-trade account state equals the next log's pre-trade state of the same account. Order and log accessors and statistics count and filter exactly these records.",
     [I, H, C], "all simulations with logging, incl. ignored and rejected orders, shared cash and capped record buffers",
     "Chaining is a relation across the whole log; tests check single rows.",
     [PF + "nb.py", PF + "logs.py", PF + "orders.py"],
     [("record writing", "portfolio/nb.py: fill_log_record_nb, fill_order_record_nb"), ("accessors", "portfolio/orders.py, portfolio/logs.py")])

# ------------------------------------------------------------------ records
RC = "vectorbt/records/"
prop("R01", "Every record stays attached to its column, row and fields under any selection",
     "For any record set (also unsorted by column or with empty columns), column mapping, sorting, masking, applying functions per column or per record, building mapped arrays and selecting columns or groups return exactly the records belonging to the selected columns with unchanged fields and correctly renumbered columns, and never drop, duplicate or mix records.",
     [I, P], "all record arrays, sort states, column subsets with repetition and reordering, groupings",
     "Tests use one 9-record set sorted by column.",
     [RC + "nb.py", RC + "base.py", RC + "col_mapper.py"],
     [("column range and map", "records/nb.py: col_range_nb, col_map_nb, *_select_nb"), ("record indexing", "records/base.py: indexing_func_meta, sort, apply_mask, map, apply")])
prop("R02", "Mapped-array operations equal a per-column reference over the raw values",
     "For any mapped array, per-column and per-group reductions, index-returning reductions, top/bottom-n, masks, filters, sorting, applying, value counts, description statistics, conversion to a table and arithmetic/comparison operators equal the obvious computation on each column's (or group's) list of values, with empty columns filled by the documented default and id/index/column arrays staying aligned with the values.",
     [I, P], "all values incl. NaN, duplicated positions, empty columns, unsorted columns, groupings",
     "Tests use one mapped array with three values per column.",
     [RC + "nb.py", RC + "mapped_array.py"],
     [("kernels", "records/nb.py: reduce_mapped_nb, top_n_mapped_nb, bottom_n_mapped_nb, expand_mapped_nb, mapped_value_counts_nb"), ("methods", "records/mapped_array.py")])
prop("R03", "Ranges and drawdowns describe exactly the runs present in the series",
     "Ranges built from a series are exactly its maximal runs of non-gap values, and drawdowns are exactly the maximal below-peak stretches with true peak, valley, recovery, status and open ends; masks, durations, coverage, overlap, decline/recovery measures, averages, maxima and active-record metrics follow from them per column and group.",
     [I], "all series incl. NaN gaps, ties, flat tops, single rows, open last ranges",
     "Tests use one 6-bar series per behaviour; boundary combinations of NaN, ties and ends are unbounded.",
     ["vectorbt/generic/nb.py", "vectorbt/generic/ranges.py", "vectorbt/generic/drawdowns.py"],
     [("detection", "generic/nb.py: find_ranges_nb, get_drawdowns_nb"), ("metrics", "generic/nb.py: range_coverage_nb, ranges_to_mask_nb, dd_*_nb; ranges.py; drawdowns.py")])

# ------------------------------------------------------------------ generic
G = "vectorbt/generic/"
prop("G01", "Rolling, expanding and exponential statistics equal the pandas definition",
     "For any input, window, minimum periods, adjustment and degrees of freedom, rolling/expanding/exponentially weighted min, max, mean and standard deviation equal the pandas results (NaN handling included) column by column, without drift on long or badly scaled series.",
     [I], "all float series incl. NaN runs, large offsets, constants; all window/minp/span/adjust/ddof combinations",
     "Tests compare on a 5x3 frame; running-sum algorithms fail through accumulated state, NaN bookkeeping and cancellation.",
     [G + "nb.py", G + "accessors.py"],
     [("kernels", "generic/nb.py: rolling_*_1d_nb, ewm_*_1d_nb, expanding_*_1d_nb"), ("accessors", "generic/accessors.py")])
prop("G02", "Shifts, fills, differences, reductions and crossings equal their definition",
     "Forward/backward shift and fill, difference, percentage change, masked assignment, cumulative and plain NaN-aware sums/products/min/max/mean/median/std/counts, index of min/max, describe, value counts, z-score, rebase, drawdown and crossed-above/below (with wait) equal the pandas/NumPy definition on every column, series or frame, and grouped reductions equal the reduction over the group's pooled values or its per-column reductions as documented.",
     [I, C], "all inputs incl. NaN, empty-NaN columns, integers and booleans, groupings, shift sizes beyond the length",
     "Tests fix one 5x3 frame; shift >= length, all-NaN, dtype and group-order edge cases are unbounded.",
     [G + "nb.py", G + "accessors.py"],
     [("kernels", "generic/nb.py: bshift/fshift/diff/pct_change/bfill/ffill/nan*_nb/crossed_above_nb/reduce_*"), ("accessors", "generic/accessors.py")])
prop("G03", "User functions are applied to exactly the right window, group or resample bin",
     "Applying a user function over columns, rows, rolling/expanding windows, row groups or resampling bins, element-wise maps and filters, and group squeezing/flattening calls it once per window/group/element with exactly the elements (and positions) a pandas/NumPy reference would give and writes each result at the matching row and column, for vector and matrix variants.",
     [I, P], "all shapes, windows, minimum periods, groupers, rules and user functions",
     "The set of windows seen by the user function is not asserted by tests that only compare a mean.",
     [G + "nb.py", G + "accessors.py"],
     [("kernels", "generic/nb.py: rolling_apply_nb, rolling_matrix_apply_nb, expanding_*, groupby_*, applymap_nb, filter_nb, apply_and_reduce_nb, squeeze_grouped_nb, flatten_grouped_nb"), ("accessors", "generic/accessors.py")])
prop("G04", "Time-series splits have the right bounds and never leak between sets",
     "Range, rolling and expanding splitting return, for every split and set, contiguous index ranges lying inside the series, of the requested length and count, with train/validation/test sets disjoint and in time order, and the split data frames contain exactly the source rows of these ranges labelled by them.",
     [I, C], "all series lengths, split counts, range/window/set lengths (absolute and relative), left-to-right and right-to-left",
     "Rounding of relative lengths and clipping at the ends depend on the length/split product; tests pick a few.",
     [G + "splitters.py", G + "accessors.py"],
     [("splitters", "generic/splitters.py"), ("split", "generic/accessors.py: split")])
prop("G05", "Indicators, rolling statistics and signal operations never look ahead",
     "Rewriting the inputs after row t leaves rows up to t of every indicator, rolling/expanding/exponential statistic, forward shift/fill, crossing, signal ranking and stop-signal output unchanged (chained or entry-skipping stops: with one exit picked per entry); label generators, which look ahead by design, depend on no row beyond their documented horizon.",
     [I, C], "all inputs, parameters and cut points",
     "Requires comparing two futures of one prefix; tests run one.",
     ["vectorbt/indicators/nb.py", G + "nb.py", "vectorbt/signals/nb.py", "vectorbt/labels/nb.py"],
     [("causal kernels", "indicators/nb.py, generic/nb.py, signals/nb.py")])

# ------------------------------------------------------------------ signals
SG = "vectorbt/signals/"
prop("S01", "Generated and cleaned signals obey alternation, window and wait rules",
     "Signal generation places entries and exits only where the choice function may (exits strictly after their entry by the wait, before the next entry or reset as configured), entry/exit pairs alternate, cleaning keeps exactly the first signal of each run and alternates entries and exits, and signal shifting, logical combination and counts follow the boolean definition.",
     [I, P, C], "all boolean frames, choice functions, wait/until-next/skip-until-exit/pick-first settings",
     "The state machine over arbitrary signal interleavings is checked by tests on a 5-row frame.",
     [SG + "nb.py", SG + "accessors.py"],
     [("generation", "signals/nb.py: generate_nb, generate_ex_nb, generate_enex_nb"), ("cleaning", "signals/nb.py: clean_enex_1d_nb")])
prop("S02", "Random signals honour counts, probabilities, bounds and seeds",
     "Random entry/exit generators place exactly n signals per column (or only where probability is non-zero, always where it is one), exits only inside their entry's allowed window, entries and exits alternating with at least the configured waits, reproducibly for a given seed, whatever the mixture of scalar, per-column or per-element parameters.",
     [I, C, S], "all shapes, n, probabilities, waits, seeds",
     "Tests assert single seeded outputs; the bound/count invariant must hold for all seeds.",
     [SG + "nb.py", SG + "accessors.py", SG + "generators.py"],
     [("generators", "signals/nb.py: generate_rand_*, rand_enex_apply_nb; signals/generators.py")])
prop("S03", "Stop-based exit signals fire at the first bar that reaches the stop",
     "Exits generated from stops on a price series or on OHLC data appear, for every entry, exactly at the first bar (after the wait, before the next entry when limited) whose price or range reaches the stop-loss, trailing or take-profit level implied by entry price and percentage, with the reported stop price and stop type, and chained entry/exit variants alternate accordingly.",
     [I, H, C], "all price paths, entries, stop arrays (scalar, per row/column, NaN-disabled), waits, chaining",
     "Path-dependent, tested on monotone 5-bar paths.",
     [SG + "nb.py", SG + "accessors.py", SG + "generators.py"],
     [("stop choice", "signals/nb.py: stop_choice_nb, ohlc_stop_choice_nb, generate_stop_*_nb")])
prop("S04", "Signal ranks, partitions, gaps and positions count exactly the right signals",
     "Position ranks, partition ranks, n-th/first selection, between-signal, between-two-arrays and partition ranges, n-th index and normalized average index equal a brute-force count over the signals of each column, honouring reset-by, after-false, allow-gaps and from-other options.",
     [I, C], "all boolean frames and option combinations",
     "Counting state machines over all interleavings; tests use one 5x3 frame.",
     [SG + "nb.py", SG + "accessors.py"],
     [("ranks and ranges", "signals/nb.py: rank_nb, between_ranges_nb, between_two_ranges_nb, partition_ranges_nb, between_partition_ranges_nb, nth_index_nb, norm_avg_index_nb")])

# ------------------------------------------------------------------ indicators / labels
prop("I01", "Built-in indicators equal their textbook formulas",
     "Moving average, moving standard deviation, Bollinger bands, RSI, stochastic, MACD, ATR and on-balance volume equal their reference formula at every row, column and parameter, with NaN warm-up exactly as long as the window requires, for simple and exponential averaging.",
     [I, C], "all price series, windows, averaging kinds, adjust and ddof settings",
     "Tests compare a 5-row series for a couple of windows.",
     ["vectorbt/indicators/nb.py", "vectorbt/indicators/basic.py", "vectorbt/generic/nb.py"],
     [("kernels", "indicators/nb.py"), ("factory wiring of parameters and inputs", "indicators/basic.py, indicators/configs.py")])
prop("I02", "An indicator run over many parameters equals one run per parameter",
     "For indicators built by the factory, the columns produced for each parameter combination (product, broadcast, per-column, tuples, combination runs) equal a separate run with that single combination on that input column, labelled with exactly these parameter values (values other than scalars by their position), irrespective of caching, unique-parameter shortcuts, raw-result reuse, in-place outputs, passed packed tuples and input order; parameter-based indexing returns the matching columns, and comparison/crossing helpers on outputs equal the comparison of the output frames.",
     [I, P, C], "all parameter grids, input shapes, factory options and cache settings",
     "Grid x option products; tests enumerate options one at a time with 2-3 parameters.",
     ["vectorbt/indicators/factory.py", "vectorbt/base/combine_fns.py", "vectorbt/base/indexing.py", "vectorbt/utils/params.py"],
     [("pipeline", "indicators/factory.py: run_pipeline, prepare_params, build_columns, from_apply_func"), ("param indexer", "base/indexing.py: build_param_indexer"), ("parameter products", "utils/params.py")])
prop("L01", "Label generators equal their look-ahead definitions",
     "Fixed, mean, local-extrema, trend and breakout labels equal a brute-force computation from the future window or zigzag definition at every row and column: extrema alternate, each swing exceeds its threshold, trend labels are consistent with the extrema, breakout labels report the first threshold crossed within the window.",
     [I, C], "all price paths, windows, waits, thresholds (scalar or element-wise)",
     "Tests use one 5-row path.",
     ["vectorbt/labels/nb.py", "vectorbt/labels/generators.py"],
     [("kernels", "labels/nb.py")])

# ------------------------------------------------------------------ returns
prop("T01", "Return and risk metrics equal their reference formulas",
     "Cumulative and total return, annualised return and volatility, drawdown, Calmar, Omega, Sharpe, deflated Sharpe, downside risk, Sortino, information ratio, beta, alpha, tail ratio, value at risk and its conditional form, common-sense ratio and capture ratios equal their formulas on every return series, column by column, with the configured annualisation, risk-free rate and benchmark, and returns computed from values invert cumulation.",
     [I, C], "all return series incl. NaN, zeros, constant, short; all frequencies, risk-free rates, benchmarks",
     "Tests check fixed constants on one 5-row frame, many of them equal across columns.",
     ["vectorbt/returns/nb.py", "vectorbt/returns/accessors.py", "vectorbt/returns/metrics.py"],
     [("kernels", "returns/nb.py"), ("accessors", "returns/accessors.py")])
prop("T02", "Rolling return metrics equal the metric of each window",
     "Each rolling return metric equals, at every row with enough observations, the non-rolling metric computed on exactly that window (of returns and of benchmark) and is NaN otherwise; resampled daily/annual returns compound exactly the returns of their bin.",
     [I, C], "all return series, windows, minimum periods, benchmarks, frequencies",
     "Tests compare few constants at one window.",
     ["vectorbt/returns/nb.py", "vectorbt/returns/accessors.py", "vectorbt/generic/nb.py"],
     [("rolling kernels", "returns/nb.py: rolling_*_nb"), ("accessors", "returns/accessors.py")])

# ------------------------------------------------------------------ base
B = "vectorbt/base/"
prop("B01", "Broadcasting aligns every array so that each cell keeps its own value",
     "Broadcasting any mix of scalars, arrays, series and frames yields arrays of one shape in which every cell holds the value NumPy broadcasting (or column-index alignment) assigns it, with index/columns combined by the documented rules or an error raised; keeping inputs raw for flexible indexing selects at each (row, column) the very same value, and no input is modified.",
     [I, C], "all mixes of shapes, index/column labels, broadcasting options",
     "Combination of shapes x label alignment x keep-raw is large; tests check small pairs.",
     [B + "reshape_fns.py", B + "index_fns.py"],
     [("broadcast", "base/reshape_fns.py: broadcast, broadcast_index, wrap_broadcasted"), ("flexible selection", "base/reshape_fns.py: flex_choose_i_and_col_nb, flex_select_nb, flex_select_auto_nb")])
prop("B02", "Index and reshape operations keep each label attached to its data",
     "Stacking, combining, repeating, tiling, dropping, renaming, selecting, de-duplicating and aligning index levels, repeating/tiling/unstacking/symmetrising arrays, and combining or concatenating results of applied functions over many objects give exactly the tuples and cells of the obvious reference, so that no value ever appears under another label.",
     [I, P], "all indexes and multi-indexes (with duplicates and names), all objects",
     "Tests use two or three fixed multi-indexes.",
     [B + "index_fns.py", B + "reshape_fns.py", B + "combine_fns.py", B + "accessors.py"],
     [("index functions", "base/index_fns.py"), ("reshaping", "base/reshape_fns.py"), ("combination", "base/combine_fns.py, base/accessors.py: combine, concat, apply_and_concat")])
prop("B03", "Wrappers select, group and wrap data consistently with pandas",
     "For any wrapper (index, columns, dimensions, frequency, grouping), pandas-style selection by label, position, mask or level returns the same labels and cells as the same selection on an equivalent pandas object, groups stay contiguous and keep their members, group lengths/starts/ends cover all columns exactly once, forbidden group changes raise, and wrapping arrays or reductions (grouped or not) attaches the right labels, types, time units and fill values.",
     [I, C], "all wrappers x selections x groupings x wrapped shapes",
     "Tests index few wrappers; selection x grouping product is unexplored.",
     [B + "array_wrapper.py", B + "column_grouper.py", B + "indexing.py"],
     [("indexing", "base/array_wrapper.py: indexing_func_meta, wrap, wrap_reduced"), ("grouping", "base/column_grouper.py")])

# ------------------------------------------------------------------ data
prop("D01", "Market data aligns, updates and concatenates without losing or inventing rows",
     "Combining symbols aligns index and columns by the chosen missing-data policy (nan, drop, raise), an update appends or overwrites exactly the rows at or after the last known index with the newly fetched ones per symbol and keeps all earlier rows, symbols, time zone and settings, and per-feature concatenation, retrieval and selection return the same cells per symbol; per-symbol arguments reach only their symbol.",
     [I, H, C], "all symbol sets, overlapping/missing/duplicated indexes, policies, sequences of updates",
     "Updates are histories over a changing source; tests perform one or two fixed updates.",
     ["vectorbt/data/base.py", "vectorbt/data/custom.py"],
     [("alignment", "data/base.py: align_index, align_columns, from_data"), ("update", "data/base.py: update, update_symbol"), ("concat/get", "data/base.py: concat, get")])
prop("D02", "Scheduled jobs run exactly when due, and updaters keep the newest data",
     "A schedule built from any accepted combination of interval, unit, weekday, time, range and tags runs its job exactly at the due (virtual) times in foreground, background and run-all modes, cancelled jobs and stopped managers never run again, malformed argument orders raise, and an updater always exposes the data of its latest successful update.",
     [I, S, H, F], "all schedule expressions, virtual clocks, concurrent async jobs, cancellations and failures",
     "Tests check job representations, not the executed timeline under a clock.",
     ["vectorbt/utils/schedule_.py", "vectorbt/data/updater.py"],
     [("schedule manager", "utils/schedule_.py: ScheduleManager, AsyncScheduler, AsyncJob"), ("updater", "data/updater.py")])

# ------------------------------------------------------------------ utils
U = "vectorbt/utils/"
prop("U01", "Configs honour frozen, read-only, copy, merge and reset semantics",
     "Under any sequence of operations a config behaves like the dictionary model with its flags: read-only configs never change, frozen keys can be neither added nor removed, attribute and item access agree, nested merges and updates combine key by key without mutating their sources, copies are independent to the depth of the copy mode, and reset/checkpoint restore exactly the checkpointed content.",
     [H, C], "all operation sequences, nesting, copy modes, flags",
     "State-machine property; tests perform short fixed sequences.",
     [U + "config.py"],
     [("config", "utils/config.py: Config, merge_dicts, update_dict, copy_dict")])
prop("U02", "Saving and loading any object preserves it completely",
     "Serialising any configured object (config, wrapper, grouper, records, mapped array, data, indicator, splitter result, portfolio) to bytes or file and loading it back gives an object that compares equal, has the same class, settings and data, and yields the same analysis results; copying or replacing attributes changes only what was asked for, and deep equality distinguishes objects that differ in any array, label or setting.",
     [I, H, C], "all object kinds, contents, nested configurations",
     "Tests pickle one object per class.",
     [U + "config.py", U + "checks.py"],
     [("pickling", "utils/config.py: Pickleable, PickleableDict, Config, Configured"), ("equality", "utils/checks.py: is_deep_equal, is_equal")])
prop("U03", "Caching never changes a result and computes each result once",
     "With caching on, off, white- or black-listed at any granularity, every cached property or method returns the same value as uncached evaluation for the same object and arguments - also from concurrent threads, after clearing, and for copies or indexed sub-objects - and when caching applies, the underlying computation of a property runs exactly once per object (and that of a method once per object and call with the same hashable arguments, unless concurrent calls overlap before the first has returned), with the documented precedence of cache conditions.",
     [H, S, C], "all access sequences, thread interleavings, cache conditions",
     "Tests check attribute presence on a toy class, never staleness or concurrent access.",
     [U + "decorators.py", "vectorbt/_settings.py"],
     [("caching decorators", "utils/decorators.py: cached_property, cached_method, should_cache")])
prop("U04", "Templates, enums, mappings, tags and attribute paths resolve to what they name",
     "Template substitution replaces every placeholder (at any nesting depth, types preserved) and nothing else, enum and value mapping is exact and reversible, tag matching equals boolean evaluation, deep attribute resolution follows the named path with the given arguments, date-time, frequency and timezone conversion preserves the instant, and numeric helpers (range expansion, rescaling, tolerant arithmetic) satisfy their arithmetic definition.",
     [I, P], "all templates, nestings, mappings, attribute chains, time zones, numbers",
     "Tests use single examples per helper.",
     [U + "template.py", U + "mapping.py", U + "enum_.py", U + "tags.py", U + "attr_.py", U + "datetime_.py", U + "array_.py", U + "math_.py"],
     [("helpers", "utils/*.py")])
prop("A01", "Summary statistics report exactly the metric of the selected column or group",
     "For every object with a statistics table, each reported value equals the metric computed directly with the same settings on the selected column or group; without selection it is the aggregate over columns of the per-column values; tag and name filters select exactly the matching metrics, settings and templates override as documented, and the table of one column equals the table of that column's own object.",
     [I, C], "all objects x metric selections x settings x aggregations",
     "Tests compare fixed tables per class.",
     [G + "stats_builder.py", U + "attr_.py", PF + "base.py"],
     [("stats builder", "generic/stats_builder.py: stats"), ("attribute resolution", "utils/attr_.py")])

# ------------------------------------------------------------------ sanitizers
prop("Z01", "Numeric kernels never access memory out of bounds or use it uninitialised",
     "For every accepted input, the numeric kernels read and write only inside their arrays (no wrap-around through negative positions either) and every element of a returned array is defined by the inputs, never by stale memory; when a user-limited record buffer is too small the documented error is raised instead.",
     [I, C], "all kernels x all accepted shapes incl. empty selections, single rows, windows beyond the length",
     "Bounds checking is off in compiled kernels, so an out-of-bounds access usually passes silently; tests cannot see stale memory.",
     [PF + "nb.py", G + "nb.py", SG + "nb.py", RC + "nb.py", "vectorbt/labels/nb.py", "vectorbt/returns/nb.py", "vectorbt/indicators/nb.py"],
     [("record buffers", "portfolio/nb.py: max_orders/max_logs"), ("empty allocations", "np.empty in all nb.py")])
prop("Z02", "No operation modifies the caller's inputs",
     "No simulation, indicator, signal, record, statistic, broadcasting or data operation changes any array, frame, index, list or dictionary passed by the caller (unless documented as in-place), nor results it returned earlier; repeating the call gives the same result, bit for bit.",
     [I, H], "all public operations and inputs, writable or read-only",
     "Tests rarely compare inputs after the call.",
     ["vectorbt/base/reshape_fns.py", PF + "base.py", G + "nb.py", SG + "nb.py"],
     [("copies before in-place writes", "base/reshape_fns.py: broadcast (require/writeable); a.copy() in kernels")])
prop("Z03", "Compiled kernels compute what their Python source says",
     "For every numeric kernel, the compiled version and the interpreted execution of the same source return the same values, types and shapes for the same inputs (1-d and 2-d, contiguous or strided, float, integer or boolean), so results do not depend on compilation, memory layout or process.",
     [I, C], "all kernels x dtypes x layouts",
     "The test-suite runs only compiled code on C-contiguous floats.",
     [G + "nb.py", SG + "nb.py", PF + "nb.py", RC + "nb.py"],
     [("dtype-specialised implementations", "generic/nb.py: overloads of fshift/bshift/set_by_mask/nan-reductions"), ("njit", "vectorbt/nb decorators")])
prop("E01", "Engine selection is explicit, safe and never changes results",
     "Every computation dispatched to an engine gives the same result with the default, automatic and explicit numba engine, raises a clear error when an unavailable or unknown engine is requested, falls back to the available engine for unsupported inputs in automatic mode, and passes every argument through unchanged.",
     [I, C], "all dispatched operations x engine choices x inputs",
     "Engine-dependent tests are skipped because the native engine is not built here; default dispatch is only exercised, not compared.",
     ["vectorbt/_engine.py", G + "dispatch.py", PF + "dispatch.py", SG + "dispatch.py", RC + "dispatch.py", "vectorbt/returns/dispatch.py", "vectorbt/indicators/dispatch.py", "vectorbt/labels/dispatch.py"],
     [("resolution", "_engine.py: resolve_engine"), ("dispatch wrappers", "*/dispatch.py")])


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(ids), "properties")


if __name__ == "__main__":
    main()
