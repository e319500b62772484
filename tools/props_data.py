NA = []
MET = ["extension/src/counter_agg.rs", "crates/counter-agg/src/lib.rs"]
GAU = ["extension/src/gauge_agg.rs", "crates/counter-agg/src/lib.rs"]

prop("C01", "counter_agg accessors describe the reset-adjusted series",
     "For any rows given to counter_agg(ts, value), in any arrival order, every accessor (delta, rate, time_delta, idelta_left/right, irate_left/right, num_elements, num_changes, num_resets, first/last value and time, slope, intercept, corr, counter_zero_time) equals the value computed from the time-ordered series in which each decrease counts as a reset that adds the previous value to all later ones. Rows with a NULL time or value are ignored, of several rows with the same timestamp only the first to arrive counts and the others have no effect at all, and no rows give NULL.",
     ["inputs", "histories"], "all rows, values, timestamps, duplicates and arrival orders",
     "The unit tests check a handful of fixed series; the claim is over every order, duplicate and reset pattern.",
     MET, [("reset bookkeeping and point accumulation", "crates/counter-agg/src/lib.rs"), ("sort before accumulation", "extension/src/counter_agg.rs combine_points")],
     ["SQL accessors of counter_agg"], "all sequences of up to 4 points over 4 times x 4 values, series of up to 7 (thorough 9) points, all permutations, NULL patterns; compared with an exact-rational model")
prop("C02", "gauge_agg accessors describe the raw series",
     "For any rows given to gauge_agg(ts, value), in any arrival order, every accessor (delta, rate, time_delta, idelta_left/right, irate_left/right, num_elements, num_changes, slope, intercept, corr, gauge_zero_time) equals the value computed from the time-ordered raw series, with decreases being ordinary changes. Rows with a NULL time or value are ignored, of several rows with the same timestamp only the first to arrive counts, and no rows give NULL.",
     ["inputs", "histories"], "all rows, values, timestamps, duplicates and arrival orders",
     "Unit tests use a few fixed series.", GAU, [("point accumulation", "crates/counter-agg/src/lib.rs")], ["SQL accessors of gauge_agg"],
     "as C01, plus negative values")
prop("C03", "counter_agg/gauge_agg partial aggregation equals the single pass",
     "Computing counter_agg or gauge_agg from partial aggregates over disjoint time ranges - combined in any order and tree, with or without serialization of the partials, or by rollup of finished summaries - gives the same accessor values as one pass over all rows, and finalizing a state does not disturb it. Partials whose time ranges overlap or touch raise an error instead of producing a result.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports of the partials, and all small inputs",
     "The parallel path depends on the plan; the tests exercise one or two combinations.", MET + GAU[:1],
     [("combine / serialize / rollup", "extension/src/counter_agg.rs, extension/src/gauge_agg.rs"), ("summary combine", "crates/counter-agg/src/lib.rs combine")],
     ["aggregate support functions through a controlled scheduler", "rollup()"], "all schedules for up to 4 rows (thorough 5), all values over {0,1,3}; overlap: all set partitions of up to 4 rows",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
prop("C04", "counter_agg/gauge_agg bounds and Prometheus extrapolation",
     "A time range given to counter_agg/gauge_agg or with_bounds is interpreted with its inclusive/exclusive/infinite ends, samples outside of the aggregate's bounds are an error, and rollup's bounds are the hull of the bounds of its parts. extrapolated_delta/extrapolated_rate equal Prometheus' extrapolation over [start, end - 1ms], are NULL for fewer than two samples, and raise an error unless the bounds are finite and contain the samples.",
     ["inputs"], "all bound shapes and sample placements", "Tests use one or two bounds.", MET + GAU[:1] + ["extension/src/range.rs", "crates/counter-agg/src/range.rs"],
     [("range decoding", "extension/src/range.rs get_range"), ("extrapolation", "crates/counter-agg/src/lib.rs prometheus_delta/rate")], ["extrapolated_delta()", "extrapolated_rate()", "with_bounds()", "rollup()"],
     "all bound shapes (inclusive/exclusive/infinite/empty) x up to 4 samples x 3 values, all rollup hulls of three parts")
prop("C05", "counter_agg/gauge_agg interpolated delta and rate",
     "interpolated_delta and interpolated_rate of a summary over [start, start+duration) equal the delta and rate of the series extended with a linearly interpolated sample at the start (when a previous summary is given and the first sample is later) and at the end (when a next summary is given), where a counter that decreases across a boundary is taken to have restarted from zero at the earlier sample. A missing previous or next summary leaves that side unextended.",
     ["inputs"], "all placements and values of the previous, current and next samples", "Tests use one data set.", MET + GAU[:1] + ["extension/src/counter_agg/accessors.rs"],
     [("interpolate", "extension/src/counter_agg.rs, extension/src/gauge_agg.rs")], ["interpolated_delta()", "interpolated_rate()"], "all combinations of previous/current/next shapes with up to 3 samples and 3 values each")
TWA = ["extension/src/time_weighted_average.rs", "crates/time-weighted-average/src/lib.rs", "extension/src/duration.rs"]
STA = ["extension/src/stats_agg.rs", "crates/stats-agg/src/stats1d.rs", "crates/stats-agg/src/stats2d.rs", "crates/stats-agg/src/lib.rs"]

prop("C06", "time_weight average, integral and endpoints",
     "For any rows given to time_weight(method, ts, value), in any arrival order, integral is the exact area under the series (linear: trapezoids between samples; LOCF: each value held until the next sample) in the requested time unit, average is that area divided by the covered time (NULL for a single instant), and first/last value and time are those of the time-ordered series. Rows with a NULL time or value are ignored, of several rows with the same timestamp only the first to arrive counts, no rows give NULL, every spelling of method and unit is understood case-insensitively and unknown ones are errors.",
     ["inputs", "histories"], "all rows, arrival orders, methods, units", "Tests use fixed series.",
     TWA, [("point accumulation", "crates/time-weighted-average/src/lib.rs"), ("state and sort", "extension/src/time_weighted_average.rs"), ("units", "extension/src/duration.rs")],
     ["time_weight accessors"], "all sequences of up to 3 points over 5 times x 4 values, series of up to 6 (thorough 8) points, all permutations of 5 points, NULL patterns, batches of up to 120 rows with duplicates, every unit spelling")
prop("C07", "time_weight partial aggregation equals the single pass",
     "Computing time_weight from partial aggregates over disjoint time ranges - combined in any order and tree, with or without serialization, or by rollup of finished summaries - gives the same average, integral and endpoints as one pass over all rows. Partials whose time ranges overlap, or whose methods differ, raise an error instead of producing a result.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports", "The parallel path depends on the plan.",
     TWA[:2], [("combine / serialize / rollup", "extension/src/time_weighted_average.rs"), ("combine", "crates/time-weighted-average/src/lib.rs")],
     ["aggregate support functions through a controlled scheduler", "rollup()"], "all schedules for up to 4 (thorough 5) rows; all set partitions for overlap; all method pairs",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
prop("C08", "time_weight interpolated average and integral",
     "interpolated_average and interpolated_integral of a summary over [start, start+interval) equal the area (divided by the covered time) of the series extended to the interval's start by the previous summary's last sample and to its end by the next summary's first sample (linear) or the last value (LOCF); a missing neighbour leaves that side unextended.",
     ["inputs"], "all placements and values of the previous, current and next samples", "Tests use one data set.",
     TWA + ["extension/src/time_weighted_average/accessors.rs"], [("interpolate", "extension/src/time_weighted_average.rs")], ["interpolated_average()", "interpolated_integral()"],
     "all combinations of previous/current/next shapes with up to 3 samples, 3 values, both methods")
prop("C09", "stats_agg (one variable) equals the exact statistics",
     "For any rows, average, sum, num_vals, and stddev, variance, skewness and kurtosis with method 'sample' (the default) or 'population' of stats_agg(value) equal the exact statistics of the non-NULL values up to rounding; infinities and NaN propagate as in PostgreSQL's aggregates; finite input whose sum or moments exceed the double range raises an error; stats_agg(bigint) is exact for values within +-2^53 and an error outside; unknown methods are errors.",
     ["inputs", "histories"], "all inputs including NULL, NaN, infinities and overflow", "Tests use fixed inputs.",
     STA[:2] + STA[3:], [("accumulation", "crates/stats-agg/src/stats1d.rs accum"), ("higher moments", "crates/stats-agg/src/lib.rs m3, m4"), ("accessors and methods", "extension/src/stats_agg.rs")],
     ["1D accessors"], "all sequences of up to 5 (6) values over 5 values incl. NULL, longer two-valued sequences, all sequences of up to 4 specials / huge values / bigint limits")
prop("C10", "stats_agg (two variables) equals the exact regression statistics",
     "For any rows of stats_agg(y, x), slope, intercept, x_intercept, corr, determination_coeff, covariance (sample/population) and every _x/_y one-variable statistic equal the exact values over the rows where both y and x are non-NULL, agree with PostgreSQL's regr_* aggregates, and are NULL where undefined (vertical line, no spread); overflow of finite input is an error.",
     ["inputs", "histories"], "all inputs including NULL, NaN, infinities and overflow", "Tests use fixed inputs.",
     STA, [("accumulation", "crates/stats-agg/src/stats2d.rs accum"), ("accessors", "extension/src/stats_agg.rs")], ["2D accessors"],
     "all sequences of up to 3 points of a 3x3 grid, longer small-grid sequences, all NULL/special patterns")
prop("C11", "stats_agg partial aggregation and rollup equal the single pass",
     "Computing stats_agg (one or two variables, float or bigint) from partial aggregates over any partition of the rows - combined in any order and tree, with or without serialization, or by rollup of finished summaries, including empty parts - gives the same statistics as one pass over all rows.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports", "The parallel path depends on the plan.",
     STA, [("combine", "crates/stats-agg/src/stats1d.rs, stats2d.rs combine"), ("serialize / rollup", "extension/src/stats_agg.rs")],
     ["aggregate support functions through a controlled scheduler", "rollup()"], "all schedules for up to 4 (thorough 5) rows over three alphabets",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
prop("C12", "stats_agg and rolling over sliding window frames",
     "stats_agg used as a window aggregate, and rolling over summaries, give for every row and every sliding frame the statistics of exactly the rows in the frame, whatever values (NULL, NaN, infinities, outliers) have entered and left the frame before, up to rounding relative to the magnitude of the values.",
     ["histories"], "all value sequences and frames", "The inverse transition functions are an undo of history; tests slide over one or two sequences.",
     STA, [("inverse transitions", "crates/stats-agg/src/stats1d.rs, stats2d.rs remove / remove_combined"), ("window support", "extension/src/stats_agg.rs *_inv_trans")],
     ["window queries"], "all sequences of up to 4 (thorough 6) rows over alphabets with NULL, NaN, infinities and outliers x all ROWS frames with offsets below 4")
UDD = ["extension/src/uddsketch.rs", "crates/udd-sketch/src/lib.rs"]
prop("C13", "uddsketch and percentile_agg estimates are within the advertised error",
     "For any values, approx_percentile(p) of uddsketch(size, max_error, value) and percentile_agg(value) is within error(sketch) (relative) of the value at sorted position min(floor(n*p), n-1); error() is max_error unless more than size buckets were needed, and then the smallest doubling of it that suffices; approx_percentile_rank(v) lies between the share of values in buckets below v's and the share in buckets up to it, and both are ascending; num_vals, mean and total are exact; the array and arrow forms agree with the plain ones; NULLs are ignored, no values give NULL, percentiles outside of [0,1] and errors outside of [1e-12,1) are errors.",
     ["inputs", "histories"], "all values, arrival orders, sizes and errors", "Tests use a few data sets with the default parameters.",
     UDD, [("bucketing and compaction", "crates/udd-sketch/src/lib.rs key, compact_key, compact_buckets"), ("estimates", "crates/udd-sketch/src/lib.rs estimate_quantile, estimate_quantile_at_value"), ("sketch encoding", "extension/src/uddsketch.rs compress_buckets")],
     ["approx_percentile()", "approx_percentile_array()", "approx_percentile_rank()", "error()", "num_vals()", "mean()", "total()"],
     "all sequences of up to 4 (thorough 5) values over four alphabets of 6-7 values (positive, mixed sign, below one, infinite) with sizes that force 0-10 compactions; long series up to 500 (1500) values in three orders")
prop("C14", "uddsketch partial aggregation and rollup equal the single pass",
     "Computing uddsketch or percentile_agg from partial aggregates over any partition of the rows - combined in any order and tree, with or without serialization, or by rollup of finished sketches, including parts with different numbers of compactions - gives the estimates, error and counts of one pass over all rows; sketches of different size or error are refused; finalizing a state does not disturb it.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports", "The parallel path depends on the plan.",
     UDD, [("merge", "crates/udd-sketch/src/lib.rs merge_sketch, merge_items"), ("serialize / rollup", "extension/src/uddsketch.rs")],
     ["aggregate support functions through a controlled scheduler", "rollup()"], "all schedules for up to 4 (thorough 5) rows over seven alphabets; rollup of all pairs and triples of six large sketches",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
TDG = ["extension/src/tdigest.rs", "crates/t-digest/src/lib.rs"]
prop("C15", "tdigest estimates are bracketed by the order statistics",
     "For any values, approx_percentile of tdigest(size, value) is ascending in the percentile, within [min_val, max_val], equal to them at and beyond the ends, between the neighbouring order statistics while there are fewer than size/2 values, and otherwise off by at most 4/size of the rank; approx_percentile_rank is ascending, within [0,1], 0 below and 1 above all values, never NaN, and consistent with the ranks to the same accuracy; num_vals, min_val, max_val, mean and total are exact; NULL and NaN are ignored, no values give NULL, negative sizes are errors.",
     ["inputs", "histories"], "all values, arrival orders and sizes", "Tests use one linear data set.",
     TDG, [("digesting", "crates/t-digest/src/lib.rs merge_sorted"), ("estimates", "crates/t-digest/src/lib.rs estimate_quantile, estimate_quantile_at_value")],
     ["approx_percentile()", "approx_percentile_rank()", "num_vals()", "min_val()", "max_val()", "mean()", "total()"],
     "all sequences of up to 5 (thorough 7) values over three alphabets x sizes; long series up to 1000 (5000) values in four orders")
prop("C16", "tdigest partial aggregation, rollup, window frames and the C library lose no rows",
     "Computing tdigest from partial aggregates over any partition of the rows - combined in any order and tree, with or without serialization, by rollup of finished digests, as a window aggregate, or through the C library's push/merge/build - describes exactly all the rows: exact num_vals, min, max, mean and total, and estimates with the accuracy of C15 (twice its rank error for merged digests). Digests of different sizes are refused and finalizing a state does not disturb it.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports", "The parallel path depends on the plan; the C library's merge has no test.",
     TDG + ["crates/t-digest-lib/src/lib.rs"], [("merge", "crates/t-digest/src/lib.rs Builder::merge, merge_digests"), ("serialize / rollup", "extension/src/tdigest.rs"), ("C interface", "crates/t-digest-lib/src/lib.rs")],
     ["aggregate support functions through a controlled scheduler", "rollup()", "window queries", "libtimescaledb_toolkit_tdigest"], "all schedules for up to 4 (thorough 5) rows; rollups of pairs and triples of large digests; all frames over sequences up to 4 rows; all C-library merge trees of up to 3 builders",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
HLL = ["extension/src/hyperloglog.rs", "extension/src/datum_utils.rs", "crates/hyperloglogplusplus/src/lib.rs", "crates/hyperloglogplusplus/src/sparse.rs", "crates/hyperloglogplusplus/src/dense.rs", "crates/hyperloglogplusplus/src/registers.rs"]
prop("C17", "hyperloglog and approx_count_distinct depend on the set of values only and follow HLL++",
     "For values of any hashable type, in any order and multiplicity, hyperloglog(size, value) and approx_count_distinct(value) hold exactly the HyperLogLog++ registers (or their sparse form) of the distinct 64-bit hashes of the non-NULL values: values equal under their type and collation count once, distinct_count is the linear-counting / raw estimate of those registers and within 4 standard errors of the true count, stderror is 1.04/sqrt(2^ceil(log2 size)), the sketch never outgrows its registers, no values give NULL, and sizes outside of 16..2^18 and types without hash function are errors.",
     ["inputs", "histories"], "all values, types, orders, multiplicities and sizes", "Tests use ranges of integers at fixed sizes.",
     HLL, [("hashing", "extension/src/datum_utils.rs DatumHashBuilder"), ("sparse and dense storage", "crates/hyperloglogplusplus/src/sparse.rs, dense.rs, registers.rs")],
     ["distinct_count()", "stderror()", "text form of the sketch"], "all sequences of up to 4 (thorough 5) values over alphabets of ten types, series of up to 20000 (100000) values in three orders x sizes 16..2^18")
prop("C18", "hyperloglog partial aggregation and rollup give the registers of the union",
     "Computing hyperloglog from partial aggregates over any partition of the rows - combined in any order and tree after serialization as the executor does, or by rollup of finished sketches in sparse or dense form, overlapping or not - gives exactly the registers of the union, and does not outgrow them; sketches of different sizes or types are refused; finalizing a state does not disturb it.",
     ["schedules", "inputs"], "all partitions, orders, merge trees", "The parallel path depends on the plan.",
     HLL, [("merge", "crates/hyperloglogplusplus/src/lib.rs merge_in, sparse.rs merge_buffers / merge_in, dense.rs merge_in"), ("serialize / rollup", "extension/src/hyperloglog.rs")],
     ["aggregate support functions through a controlled scheduler", "rollup()"], "all schedules for up to 4 (thorough 5) rows over three types; rollups of all pairs/triples of seven sizes of parts; rollups of up to 399 parts",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
FRQ = ["extension/src/frequency.rs", "extension/src/datum_utils.rs", "extension/src/pg_any_element.rs"]
prop("C19", "freq_agg's bounds contain the true frequencies and no frequent value is missed",
     "For any rows, types, partitioning, combination order, serialization or rollup of freq_agg(f, value) / raw_freq_agg, every reported value occurs in the input, its true share lies in [min_freq, max_freq], the counts are listed in descending order without repetition, and every value whose share exceeds f is reported; into_values, topn, min_frequency, max_frequency and the arrow forms agree with each other; a rollup of aggregates with different f keeps the guarantee of the coarsest; aggregates over different types are refused; the text form reads back to the same aggregate for any stored type; NULLs are ignored and frequencies outside of (0,1) are errors.",
     ["inputs", "schedules"], "all streams, types, partitions and transports", "The guarantee depends on evictions, which need particular orders of particular multiplicities; tests use one or two streams.",
     FRQ, [("space-saving update and eviction", "extension/src/frequency.rs SpaceSavingTransState::add, combine"), ("accessors", "extension/src/frequency.rs freq_iter, topn, min_frequency, max_frequency"), ("stored values", "extension/src/datum_utils.rs DatumStore")],
     ["into_values()", "topn()", "min_frequency()", "max_frequency()", "text form"], "all streams (up to renaming of values) of up to 5 (thorough 6) rows under all schedules, streams of 7-9 rows under all rollups of 2-3 consecutive parts, all pairs of types",
     "stateless exploration of all aggregation schedules under a controlled scheduler, judged by the guarantee")
prop("C20", "mcv_agg's bounds contain the true frequencies and topn answers exactly when the data is skewed enough",
     "For any rows, types, partitioning, combination order, serialization or rollup of mcv_agg(n[, skew], value), every reported value's true share lies in [min_freq, max_freq], counts are in descending order without repetition, topn(n) returns the n most frequent reported values and raises an error exactly when n exceeds the tracked n or the counts are not as skewed as the aggregate was told to expect; negative n, skew of 1 or less and NaN are errors; rollups with different parameters keep the guarantee of the coarsest.",
     ["inputs", "schedules"], "all streams, types, partitions and transports", "The guarantee depends on evictions and on the skew of the data; tests use one Zipfian stream.",
     FRQ, [("space-saving update and eviction", "extension/src/frequency.rs SpaceSavingTransState"), ("skew check", "extension/src/frequency.rs zeta_le_n, validate_topn_for_topn")],
     ["topn()", "into_values()", "min_frequency()", "max_frequency()"], "all streams (up to renaming) of up to 5 (6) rows under all schedules, 7-9 rows under all rollups, 1080 longer streams of 5-60 values with four orders and three cuts",
     "stateless exploration of all aggregation schedules under a controlled scheduler, judged by the guarantee")
CMS = ["extension/src/countminsketch.rs", "crates/count-min-sketch/src/lib.rs"]
prop("C21", "count_min_sketch counts every row once in every row of counters",
     "For any text values, count_min_sketch(value, error, probability) has width ceil(e/error) and depth ceil(ln(1/(1-p))), holds in each counter exactly the number of rows hashed to it, and approx_count(item) is the minimum over the depth, hence never below the true count, whatever the order of the rows; NULLs are ignored and the text form reads back to the same sketch.",
     ["inputs"], "all value sequences and parameters", "Tests sample a few values.",
     CMS, [("counters", "crates/count-min-sketch/src/lib.rs add_value, estimate, with_dim, with_prob"), ("state", "extension/src/countminsketch.rs")],
     ["approx_count()", "text form"], "all sequences of up to 5 (6) values under parameter grids, compared counter by counter with an independent SipHash model")
STG = ["extension/src/state_aggregate.rs", "extension/src/state_aggregate/rollup.rs", "extension/src/state_aggregate/accessors.rs"]
prop("C22", "state_agg accessors describe exactly the intervals between the time-ordered states",
     "For any rows of state_agg / compact_state_agg (text or bigint states), in any arrival order, each state holds from its time to the next row's: duration_in (in all or in a range), into_values, state_timeline, state_periods and state_at give exactly those intervals, adjacent rows of the same state form one period, the last state has no length, state names are told apart even when one is part of another, rows with a NULL state are ignored, two different states at one time are an error; the arrow forms and the text form are equivalent; accessors of the other kind of state are errors.",
     ["inputs", "histories"], "all rows, orders, state names and ranges", "Tests use a few series with well-separated names.",
     STG, [("accumulation", "extension/src/state_aggregate.rs CompactStateAggTransState, DurationState"), ("state names", "extension/src/state_aggregate.rs StateEntry"), ("accessors", "extension/src/state_aggregate.rs duration_in_inner, state_at_inner, state_periods_inner")],
     ["duration_in()", "into_values()", "state_timeline()", "state_periods()", "state_at()"], "all sequences of up to 3 rows over 3 times x 4 states incl. NULL, series of up to 6 (7) rows, all permutations of 5 rows, all triples of 17 awkward names, batches up to 160 rows with duplicates; 10 ranges, 7 instants")
prop("C23", "state_agg partial aggregation, window frames and rollup equal the single pass",
     "Computing state_agg / compact_state_agg from partial aggregates over any partition of the rows - combined in any order and tree, with or without serialization - or as a window aggregate gives the durations and periods of one pass over all rows; rollup of summaries of disjoint time ranges in any order gives the same, filling each gap with the earlier state, and overlapping ranges are refused.",
     ["schedules", "inputs"], "all partitions, orders, merge trees and transports", "The parallel path and window frames depend on the plan.",
     STG[:2], [("combine / finalize", "extension/src/state_aggregate.rs state_agg::combine, finally"), ("merge", "extension/src/state_aggregate/rollup.rs OwnedCompactStateAgg::merge")],
     ["aggregate support functions through a controlled scheduler", "rollup()", "window queries"], "all schedules for up to 4 (thorough 5) rows, four aggregates; rollup of all set partitions of up to 4 rows; all frames over up to 4 rows",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
prop("C24", "interpolated state_agg accessors extend the states over the interval",
     "interpolated_duration_in, interpolated_state_timeline and interpolated_state_periods of a summary over an interval extend the previous summary's last state from the interval's start to the first state (if that is later) and the last state to the interval's end (if that is later), and count the time within the interval; a missing previous summary leaves the start as it is; a NULL summary, a start before the previous summary's last state or mixed kinds of states are errors.",
     ["inputs"], "all placements of previous and current states, and intervals", "Tests use one data set.",
     STG, [("interpolate", "extension/src/state_aggregate.rs CompactStateAgg::interpolate")], ["interpolated_duration_in()", "interpolated_state_timeline()", "interpolated_state_periods()"],
     "all combinations of 4 previous and 3 current shapes over 3 states x 6 starts x 6 lengths, plain and arrow forms")
HBF = ["extension/src/heartbeat_agg.rs", "extension/src/heartbeat_agg/accessors.rs"]
prop("C25", "heartbeat_agg's live and dead ranges are exactly what the heartbeats cover",
     "For any heartbeats within heartbeat_agg's range, in any order and number, live_ranges is the union of [heartbeat, heartbeat + liveness) cut off at the end of the range, dead_ranges is the rest of the range, and uptime, downtime, num_live_ranges, num_gaps and live_at describe exactly these ranges; trim_to gives exactly the parts of them within the given range and refuses ranges beyond the aggregate; the arrow forms, the text form and the = operator agree; heartbeats outside of the range are errors.",
     ["inputs", "histories"], "all heartbeats, orders, batches and trims", "Heartbeats are absorbed in batches of 1000; the tests never fill one, and trim only ranges with live ends.",
     HBF, [("batches", "extension/src/heartbeat_agg.rs HeartbeatTransState::process_batch, combine_intervals"), ("trim", "extension/src/heartbeat_agg.rs HeartbeatAgg::trim_to")],
     ["live_ranges()", "dead_ranges()", "uptime()", "downtime()", "live_at()", "num_gaps()", "num_live_ranges()", "trim_to()"], "all 4095 sets of heartbeats on a grid of 12 x 5 liveness durations, all sequences of up to 3, all orders of 5, up to 3500 (9000) heartbeats in 7 orders x 4 spacings, 10080 trims plain and through ->")
prop("C26", "rollup and interpolation of heartbeat_agg give the live ranges of all the heartbeats",
     "rollup of heartbeat_agg summaries, over the same, overlapping, adjacent or separate ranges and in any order, gives the live and dead ranges of all their heartbeats over the hull of their ranges; summaries of different liveness are refused; interpolate / interpolated_uptime / interpolated_downtime add what the previous summary's last heartbeat still covers, within the aggregate's range; trimming a summary into parts and rolling them up or interpolating gives back the same ranges.",
     ["inputs", "schedules"], "all placements, orders and contents of the parts", "Tests combine two or three fixed windows.",
     HBF, [("merge of interval lists", "extension/src/heartbeat_agg.rs combine_intervals, extend_covered_interval"), ("interpolation", "extension/src/heartbeat_agg.rs interpolate_start")],
     ["rollup()", "interpolate()", "interpolated_uptime()", "interpolated_downtime()"], "all pairs of heartbeat sets on a grid of 7 (8) x 2 liveness durations, triples, all orders of windows in 7 placements, all previous/current shapes, all two-point cuts of 12 s aggregates")
CSF = ["extension/src/candlestick.rs"]
prop("C27", "candlesticks hold the exact open, high, low, close, volume and vwap of their ticks",
     "For any ticks in any order, candlestick_agg gives the price of the earliest and latest tick (first arrived of ties), the highest and lowest price with their times, the sum of the volumes and the volume-weighted mean price; ticks without time or price are ignored, a tick without volume makes volume and vwap NULL, vwap is NULL unless the volume is positive and the product sum finite; candlestick() builds the bar of its arguments (NULL if any but the volume is missing, vwap from the typical price); partial aggregation over any partition, order, tree and transport, window frames and rollup of ticks or bars give the same as one pass; the arrow forms and the text form agree.",
     ["inputs", "schedules", "histories"], "all ticks, orders, partitions and transports", "Tests use monotonous or oscillating series in one pass.",
     CSF, [("update", "extension/src/candlestick.rs Candlestick::add_tick_data, from_tick"), ("combine", "extension/src/candlestick.rs Candlestick::combine"), ("volume", "extension/src/candlestick.rs VolKind, vwap")],
     ["open()", "high()", "low()", "close()", "*_time()", "volume()", "vwap()", "rollup()"], "all sequences of up to 2 ticks over 33 and of 3-4 (5) over 8 kinds of ticks, all schedules of up to 4 (5) ticks in any order and in order, all sequences of up to 4 (5) bars, NULL in every subset of arguments, all 3-row window frames",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
NM = ["extension/src/nmost.rs", "extension/src/nmost/min_float.rs", "extension/src/nmost/max_float.rs", "extension/src/nmost/min_int.rs", "extension/src/nmost/max_int.rs", "extension/src/nmost/min_time.rs", "extension/src/nmost/max_time.rs"]
prop("C28", "min_n and max_n hold exactly the n smallest and largest values",
     "For float8, bigint and timestamptz, min_n(value, n) / max_n(value, n) over any rows in any order hold the n smallest / largest values with their multiplicity, in order; into_array, into_values and the arrow forms list them, the text form reads back to the same; partial aggregation over any partition, order, tree and transport including workers without rows, window frames and rollup of summaries of any sizes give the same; NaN is refused and no rows give NULL.",
     ["inputs", "schedules"], "all values, n, orders, partitions and transports", "Tests roll up full summaries only and never use windows or parallel plans.",
     NM, [("heap", "extension/src/nmost.rs NMostTransState::new_entry, nmost_rollup_trans_function, nmost_trans_combine"), ("finalize / serialize", "extension/src/nmost/*_{float,int,time}.rs")],
     ["into_array()", "into_values()", "rollup()"], "all sequences of up to 4 (5) values x n 1-4, permutations, strided series to 40 rows; all schedules for up to 4 (5) rows of all six aggregates; rollup of all set partitions; frames over all 4-permutations of 6 values",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
prop("C29", "min_n_by and max_n_by return the n extreme values, each with the data of its own row",
     "For float8, bigint and timestamptz values and data of any type, min_n_by / max_n_by return the n smallest / largest values in order, each with the data of a row that has this value, no row twice, whatever the order of the rows; finalizing after every row, window frames, rollup of summaries of any sizes in any order and reading back the text form give the same; into_values refuses a type other than the stored one.",
     ["inputs", "histories"], "all values, data types, orders, frames and rollups", "Tests use one series with a composite type and roll up full summaries only.",
     ["extension/src/nmost.rs"] + ["extension/src/nmost/%s_by_%s.rs" % (f, t) for f in ("min", "max") for t in ("float", "int", "time")], [("heap with data", "extension/src/nmost.rs NMostByTransState::new_entry, into_sorted_parts, nmost_by_rollup_trans_function"), ("stored data", "extension/src/datum_utils.rs DatumStore, deep_copy_datum")],
     ["into_values()", "rollup()", "text form"], "six aggregates x 20 data types x n x orders of up to 5 rows, all sequences of up to 4 (5) rows over 3 values, rollup of all partitions of up to 4 rows in all orders, sliding and growing frames over series of up to 101 rows, all pairs of 8 types")
prop("C30", "lttb and gp_lttb are Largest-Triangle-Three-Buckets downsamplings of the time-ordered rows",
     "For any rows in any arrival order, lttb(time, value, n), lttb(timevector, n) and the pipeline element keep the first and last point and exactly one point of each of the n-2 nearly equal buckets between them, one with the largest triangle with the previously chosen point and the mean of the next bucket; series of at most n points are unchanged, NULL values are not points, the result is sorted; gp_lttb does this on each stretch without a gap, with n shared out in proportion and at least the ends of every stretch; unsorted timevectors and too small n are errors.",
     ["inputs"], "all series, resolutions, arrival orders and gaps", "The tests downsample a few fixed series; bucket borders, ties and overflow depend on sizes and values.",
     ["extension/src/lttb.rs"], [("bucket selection", "extension/src/lttb.rs lttb, lttb_ts"), ("gap handling", "extension/src/lttb.rs gap_preserving_lttb_final")],
     ["lttb()", "gp_lttb()", "-> lttb()"], "all series of up to 5 (6) points over 2 gaps x 3 values, all arrival orders of up to 4 points, structured series of 7-40 points with every resolution, all gap patterns, long series of 2000-30000 points")
prop("C31", "a timevector holds exactly its rows in arrival order, with truthful flags",
     "For any rows, partial aggregation in any order, tree and transport, window frames and rollup, timevector holds its rows with a time in the order in which they came (rollups concatenate), NULL values as nulls, with the sorted and null flags set exactly when true; unnest, -> unnest(), the text form, to_text and to_plotly read back exactly these points; asof pairs every point of one sorted series with the last one of the other that is not later.",
     ["inputs", "schedules"], "all rows, partitions and transports", "Tests use one series of five points; null bits over byte borders and parallel plans never occur.",
     ["extension/src/time_vector.rs", "extension/src/time_vector/iter.rs"], [("aggregation", "extension/src/time_vector.rs timevector_trans, timevector_combine"), ("null bits", "extension/src/time_vector.rs combine, is_null_val"), ("asof", "extension/src/time_vector.rs asof_join")],
     ["timevector()", "rollup()", "unnest()", "to_text()", "to_plotly()", "asof()"], "all schedules for up to 4 (5) rows over two alphabets with NULLs and infinities, all single null positions and patterns in 7-25 points at all byte-border cuts, all pairs of short sorted series for asof",
     "stateless exploration of all aggregation schedules under a controlled scheduler")
PIPE = ["extension/src/time_vector/pipeline.rs"] + ["extension/src/time_vector/pipeline/%s.rs" % f for f in ("arithmetic", "delta", "fill_to", "filter", "map", "sort")] + ["extension/src/lttb.rs"]
prop("C32", "every timevector pipeline element does what it says to every point",
     "For any timevector - sorted or not, with nulls, NaN, infinities, equal times, of any length - each pipeline element (arithmetic with and without an operand, abs ... trunc, delta, fill_to with every method, filter, map over points / values / series, sort, lttb) yields exactly the points it describes: times are kept unless the element says otherwise, null points stay null, the result's sorted flag is set only when the points are sorted and its null flag whenever there are nulls; elements refuse what they cannot work on (unsorted input where order matters, intervals that are not positive, functions of the wrong signature or returning NULL) with an error and never hang.",
     ["inputs"], "all series, elements and operands", "The tests apply each element to one small sorted series without nulls.",
     PIPE, [("elements", "extension/src/time_vector/pipeline.rs execute_pipeline_element"), ("null bits", "extension/src/time_vector/pipeline/filter.rs, map.rs, fill_to.rs")],
     ["timevector -> element"], "all series of up to 3 points over 3 times x 3 (4) values incl. null, all special values, structured series to 17 points; every element with a grid of operands (110k pairs)")
PFIN = ["extension/src/time_vector/pipeline.rs", "extension/src/time_vector/pipeline/aggregation.rs", "extension/src/time_vector/pipeline/expansion.rs"]
prop("C33", "a chain of pipeline elements gives the same result however it is written and executed",
     "For any timevector and any sequence of pipeline elements, applying the elements one at a time, chained with ->, grouped into pipelines in any way, as constants that the planner folds into one call, as columns or parameters, through the pipeline's text form, with materialize() anywhere: all give the same timevector (or all refuse), namely the one that the elements describe; ending the chain with stats_agg(), sum(), average(), num_vals(), counter_agg(), hyperloglog(n), percentile_agg() or unnest(), alone or as part of a pipeline, gives what the aggregate gives over the points of that timevector; NULL anywhere gives NULL.",
     ["inputs", "schedules"], "all sequences of elements, ways to write them and finalizers", "Constant folding through planner support functions happens only for some expressions; the tests look at a few plans.",
     PFIN, [("folding", "extension/src/time_vector/pipeline.rs pipeline_support_helper, arrow_add_unstable_element"), ("finalizers", "extension/src/time_vector/pipeline/aggregation.rs arrow_run_pipeline_then_*, finalize_with_*"), ("materialize / unnest", "extension/src/time_vector/pipeline/expansion.rs")],
     ["timevector -> elements [-> finalizer]"], "all sequences of up to 2 of 16 elements over 9 series (two of them stored out of line) and of 3 of 11 (16) elements over 5 (7) series in up to 17 forms; all sequences of up to 2 elements x 7 finalizers in up to 7 forms, unnest() likewise (775k evaluated steps)",
     "explicit-state reference model; every enumerated expression is planned and executed by PostgreSQL in all its forms")
LAM = ["extension/src/time_vector/pipeline/lambda.rs", "extension/src/time_vector/pipeline/lambda/parser.rs", "extension/src/time_vector/pipeline/lambda/executor.rs", "extension/src/time_vector/pipeline/lambda/lambda_expr.pest"]
prop("C34", "a lambda expression means what its grammar, precedence and types say",
     "A lambda accepts exactly the expressions of its grammar (numbers, '..'t times, '..'i intervals, $value, $time, let variables, functions, tuples, operators; keywords in any case, any white space) that are well typed, and evaluates them with the documented precedence (or, and, comparisons, + -, * /, right-associative ^, prefix - and not binding tightest), IEEE arithmetic, PostgreSQL's interval and timestamp arithmetic and short-circuiting and/or, in map and filter for every row independently; everything else - unknown or duplicate variables, wrong types, wrong numbers of arguments, malformed text, expressions too large for the stack - is an error and never a crash.",
     ["inputs"], "all expressions and rows", "The tests evaluate a few dozen fixed expressions; precedence, typing and scoping are about combinations.",
     LAM, [("grammar", "extension/src/time_vector/pipeline/lambda/lambda_expr.pest"), ("precedence and types", "extension/src/time_vector/pipeline/lambda/parser.rs build_binary_op, PREC_CLIMBER"), ("evaluation", "extension/src/time_vector/pipeline/lambda/executor.rs ExpressionExecutor")],
     ["f64_lambda() ... trace_lambda()", "timevector -> map()", "timevector -> filter()"], "all 137k token strings of up to 4 tokens (thorough: 760k of 5), all triples of the 14 operators over operand types, all pairs with all types and prefixes, all functions x 18 values, let programs in three spellings and over several rows, literals and time arithmetic against PostgreSQL, expressions of up to 100000 levels",
     "explicit-state reference model (independent parser, type checker and evaluator), every enumerated program run on the real extension")
prop("C35", "asap_smooth is the moving average over the window that the ASAP algorithm chooses",
     "For any rows in any arrival order, asap_smooth(time, value, n) and asap_smooth(timevector, n) average the time-ordered points (rows with a NULL are not points) in groups of floor(len/n) when there are more than 2n of them and then smooth with one moving-average window: the one that the documented search - peaks of the autocorrelation from long to short, pruned, then bisection - finds to be smoothest without a smaller kurtosis; every point has the time of the input at the middle of its window, the result is sorted, no rows give NULL, n <= 0 is an error, NaN and infinities do no harm.",
     ["inputs"], "all series, resolutions and arrival orders", "The tests compare one temperature series, on which the search over autocorrelation peaks never runs.",
     ["crates/asap/src/lib.rs", "crates/asap/src/fft.rs", "extension/src/asap.rs"], [("search", "crates/asap/src/lib.rs asap_smooth_with_metadata, Acf::find_peaks, binary_search"), ("times", "extension/src/asap.rs smooth_points")],
     ["asap_smooth()"], "all series of up to 4 (5) rows over 3 values and NULL in all arrival orders x 4 resolutions, all periodic words of up to 4 (5) letters x 7 plateaus x trend x 4 (10) lengths, waves x noise x plateaus x lengths x resolutions x arrival orders; comparisons decided by rounding are explored both ways in the model")

SER = ["extension/src/type_builder.rs", "extension/src/serialization.rs", "extension/src/serialization/types.rs", "extension/src/serialization/collations.rs", "extension/src/serialization/functions.rs", "extension/src/datum_utils.rs", "extension/src/range.rs", "crates/tspoint/src/lib.rs", "crates/flat_serialize/flat_serialize/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs"]
prop("C36", "an aggregate that is stored, printed or handed on is the same aggregate",
     "A value of any of the extension's types - every aggregate, timevector, pipeline, lambda and accessor, with any content (names and states with quotes, backslashes or multi-byte characters, -0, NaN, infinities, BC and far-future times, enums, domains, composites, empty parts) - answers every function and rollup exactly the same after it was printed and read back, under any output setting (DateStyle, TimeZone, IntervalStyle, extra_float_digits, search_path), in another session or database, as a constant, stored in a table at any alignment with short or long headers, compressed or out of line, as array element, field of a row, variable or through sorts and windows.",
     ["inputs", "histories"], "all contents, storage layouts, settings and databases", "Tests print a few values under the default settings; storage layouts and settings never vary.",
     SER, [("flat datum layout", "extension/src/type_builder.rs pg_type_impl!, crates/flat_serialize"), ("names instead of OIDs", "extension/src/serialization/*.rs"), ("timestamps in text forms", "extension/src/serialization.rs _ts_toolkit_encode_timestamptz, _ts_toolkit_decode_timestamptz")],
     ["type input and output", "table columns", "arrays and rows"], "about 1100 values of 142 types x 25 settings (thorough: 588 and more values) on the printing and reading side, a second database with other OIDs, 4 storage kinds x up to 9 alignments, 13 containers and ways; every observer of every type",
     "explicit enumeration of values x transport histories on the real extension; oracle: every observer before the transport")
prop("C37", "no text takes the server down",
     "Any text given as the value of any of the extension's types - truncated, with characters, tokens, numbers or array elements changed, removed, doubled or exchanged, lengths that do not match, unknown names, malformed or extreme timestamps - is either refused with an error or read as a value on which every function and rollup answers or raises an error; the server never crashes, hangs or exhausts its memory.",
     ["inputs"], "all malformed texts", "Tests read back texts that the extension printed.",
     SER, [("text input", "extension/src/type_builder.rs pg_type_impl!, ron_inout_funcs!"), ("errors inside deserializers", "extension/src/serialization.rs, crates/tspoint/src/lib.rs")],
     ["type input of every type"], "every single edit (24 characters at every position of short texts, 25 numbers for every number, removed, doubled, exchanged tokens, truncation, array edits) and all pairs of nearby numbers of up to 3 texts of each of 142 types, then every observer: 174k texts")
prop("C38", "agg -> accessor(args) is accessor(agg, args)",
     "For every aggregate value, every accessor and every argument, the arrow form value -> accessor(args) gives the same result (or error) as the function form accessor(value, args); and it makes no difference whether the accessor is written as a constant, comes from a column, or was read back from its text form.",
     ["inputs"], "all operators, values and arguments", "Tests compare a handful of hand-picked pairs.",
     ["extension/src/accessors.rs", "extension/src/state_aggregate.rs", "extension/src/counter_agg.rs", "extension/src/time_weighted_average.rs", "extension/src/time_vector.rs", "extension/src/heartbeat_agg.rs"],
     [("accessor types", "extension/src/accessors.rs accessor!"), ("arrow operators", "#[opname(->)] functions")],
     ["operator ->", "accessor functions"], "every -> operator with an accessor (140+), up to 30 values of the left type (quick; all in thorough) x every accessor argument of the catalogue x 3 ways of giving the accessor",
     technique="explicit enumeration of operator x value x argument on the real extension; oracle: the function form")
prop("C39", "aggregates see only their own rows",
     "The result of any aggregate depends only on the rows of its own group, in their order: it is the same value when the rows of several groups arrive interleaved in any order (hash or sorted grouping, grouping sets, FILTER), when other aggregates or the same aggregate run in the same statement, when it is finalized again after every further row (window frames), after statements that failed or were aborted at any row, and set-returning functions read through several cursors return the same rows however the fetches interleave.",
     ["schedules", "faults"], "all interleavings and abort points", "Tests aggregate one group in one statement.",
     ["extension/src/aggregate_utils.rs", "extension/src/palloc.rs", "extension/src/datum_utils.rs", "extension/src/candlestick.rs", "extension/src/counter_agg.rs", "extension/src/state_aggregate.rs", "extension/src/nmost.rs", "extension/src/frequency.rs", "extension/src/tdigest.rs", "extension/src/uddsketch.rs", "extension/src/hyperloglog.rs", "extension/src/time_vector.rs"],
     [("aggregate contexts", "extension/src/aggregate_utils.rs in_aggregate_context"), ("finalization leaves the state alone", "final functions"), ("set-returning functions", "TableIterator/SetOfIterator functions")],
     ["all aggregates", "all set-returning functions"], "81 aggregates x all interleavings of 2 groups of 3 and 3 groups of 2 rows x 6 plans; all pairs of aggregates in one statement; failure at every row x 4 forms; running windows of 7, 48 and 130 rows; 17 x 17 set-returning functions x all fetch orders of 5 (thorough: up to 7) steps",
     technique="exhaustive enumeration of row interleavings, abort points and fetch orders on the real extension; oracle: the group aggregated alone")
prop("C40", "calendar helpers, saturating arithmetic and the series generator",
     "days_in_month(t) is the number of days of the month that t falls in, in the session's time zone, and month_normalize(metric, t, days) is metric * days divided by that number, for every day of the month and in every time zone (also in months with a change of the clocks); to_epoch(t) is the number of seconds since 1970. saturating_add/sub/mul are the exact result clamped to the range of int, the _pos forms clamped to 0 and above. generate_periodic_normal_series gives base + magnitude * sin(t / (2 pi period)) at every sample interval below the length, plus noise that depends on the seed and the number of the sample only and scales with the standard deviation. NULL gives NULL.",
     ["inputs"], "all dates, time zones and operands", "The tests look at two months in UTC and at a handful of sums.",
     ["extension/src/utilities.rs", "extension/src/saturation.rs"], [("calendar", "extension/src/utilities.rs days_in_month, month_normalize, to_epoch"), ("clamping", "extension/src/saturation.rs"), ("generator", "extension/src/utilities.rs generate_periodic_normal_series")],
     ["days_in_month()", "month_normalize()", "to_epoch()", "saturating_*()", "generate_periodic_normal_series()"], "every day (and times near both midnights) of 85 years in 7 (14) time zones; all pairs of 110 operands around powers of two; 700 parameter combinations of the generator",
     technique="exhaustive enumeration of dates x zones, operand grids and generator parameters on the real extension; oracle: Python's calendar and exact integers")
CR = "exhaustive exploration of the crate's operations in process against an independent model (crates_mc, path dependency on the crate)"
prop("C41", "integer sequences survive the compressed encodings",
     "Every sequence of integers that is written with the prefix-varint encoding - plain, zigzag or as deltas, through the functions or the compressor objects - is written exactly as the format is documented (k bytes for up to 7k bits, 9 bytes above 56 bits) and read back as the same sequence, whatever bytes follow; the largest and smallest integers and deltas that wrap around included.",
     ["inputs"], "all integers and sequences", "The tests try random vectors and never look at the bytes, so a change to both directions, or at one border between two lengths, goes unseen.",
     ["crates/encodings/src/lib.rs"], [("prefix varint", "crates/encodings/src/lib.rs prefix_varint"), ("zigzag, delta", "crates/encodings/src/lib.rs zigzag, delta")],
     ["encodings crate", "sparse hyperloglog"], "every value below 2^21 (2^24), around every power of two and in every byte pattern; all sequences of up to 3 of 29 (150) boundary values, all pairs of 424 (1270) values, runs of up to 200", technique=CR)
prop("C42", "flat serialization writes, reads and refuses exactly",
     "A value of a flat-serialized type - fixed fields, arrays whose length is an earlier field, optional fields, enums, nested structs and slices of values of different lengths - is written as its fields one after another in exactly num_bytes() bytes; reading that gives the same value and leaves what follows; every buffer that is too short for it and every unknown tag is refused; a copy that owns its data is written the same, and every way to walk its slices (iter, into_iter, nth, len, as_slice) sees the same elements.",
     ["inputs", "faults"], "all values and all truncations", "The tests write one value of each shape.",
     ["crates/flat_serialize/flat_serialize/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs"], [("reading and writing", "flat_serialize FlatSerializable, VariableLen, Slice, Iter"), ("generated code", "flat_serialize_macro")],
     ["every stored value of the extension"], "11 types: all array lengths up to 20 (70), all words of up to 4 (6) elements of different lengths, all tags, every truncation of every value", technique=CR)
prop("C43", "merging any number of t-digests in any grouping loses nothing",
     "Merging any number of t-digests (empty, single, interleaved, disjoint or with equal values), all at once, one after another from either end or through builders with unwritten buffers, gives a digest with exactly all values counted, their exact minimum, maximum and sum, no more centroids than its size, centroids in order that are runs of neighbouring input centroids no wider than the scale function allows, and rising quantile and rank estimates within the data's range.",
     ["inputs", "schedules"], "all groupings of all parts", "The tests merge one list of digests over one range of values.",
     ["crates/t-digest/src/lib.rs"], [("merge", "crates/t-digest/src/lib.rs TDigest::merge_digests, external_merge, Builder::merge"), ("size", "crates/t-digest/src/lib.rs TDigest::new")],
     ["tdigest crate", "rollup(tdigest)"], "all words of up to 4 (5) parts of 6 shapes x 5 (9) sizes in 4 groupings, all periodic words of 5-17 (40) parts, centroid lists of up to 60 x sizes", technique=CR)
prop("C44", "time-weight summaries extended to bounds are exact",
     "A time-weighted summary extended with a start and a previous point, an end and a next point, or both, has the end points interpolated by its method and the exact integral and average between them; bounds or points out of order, and an end without a next point for the linear method, are errors. Built from any sequence it equals the model or is refused when out of order; combining the two halves of any cut equals the whole, halves that touch or differ in method are refused. The counter ranges' contains, extend and duration are those of half-open integer intervals.",
     ["inputs", "histories"], "all series, bounds and cuts", "The tests extend to one side at a time.",
     ["crates/time-weighted-average/src/lib.rs", "crates/counter-agg/src/range.rs"], [("bounds", "crates/time-weighted-average/src/lib.rs with_bounds, with_prev, with_next"), ("combine", "TimeWeightSummary::combine, combine_sorted_iter"), ("ranges", "crates/counter-agg/src/range.rs")],
     ["time_weighted_average crate", "counter-agg crate"], "30 series x 73 previous x 79 next shapes x 2 methods; all sequences of up to 5 (6) points over 4 times x 2 values with every cut; all pairs of 110 ranges", technique=CR)
prop("C45", "a uddsketch is a function of the multiset of its values' buckets",
     "The uddsketch crate, for every sequence of additions and merges: the sketch holds exactly one count per value in the bucket of its logarithm, at the least number of compactions for which the buckets fit the maximum (compaction joins buckets 2i-1 and 2i, on either side of zero), with the error of that many compactions, buckets listed in rising order of value. So neither the order of additions nor the grouping of merges, nor merging by merge_sketch or by merge_items, nor reading the sketch back from its parts, nor the number of buckets being compacted, changes it. Count, sum and mean are exact; every quantile is within the error of the value of its rank; the rank of a value is the share of the buckets below plus half of its own.",
     ["histories", "inputs"], "all histories of additions and merges", "The unit tests sample; SQL never reaches merge_sketch and only rarely the larger compaction paths.",
     ["crates/udd-sketch/src/lib.rs"], [("compaction", "crates/udd-sketch/src/lib.rs SketchHashMap::compact, populate_map_using_iter, compact_key"), ("insertion", "entry_upsert, entry_split"), ("merging", "merge_sketch, merge_items, new_from_data")],
     ["uddsketch crate"], "all sequences of up to 5 (6) values over 9 buckets x 5 sizes; all of up to 5 (6) over 6 buckets x all contiguous cuts x 8 ways of merging x 3 sizes; compaction from 3..5004 buckets at the limits of each code path", technique=CR)
prop("C46", "HyperLogLog++ registers are those of the set of hashes, in sparse and dense form",
     "The hyperloglogplusplus crate, for every sequence of 64-bit hashes and every merge: register i holds the largest position of the first one bit after the index among the hashes with index i, whether they were kept in sparse or dense form, crossed from one to the other, were merged sparse or dense in either order, or added again. The sparse form holds one entry per 25-bit prefix and estimates by linear counting over 2^25; the dense form estimates by linear counting below the threshold, and equally for equal registers; sparse turns dense when it would take more room; what is read back from the stored bytes estimates the same. precision_for_error gives the least precision that has the error.",
     ["histories", "inputs"], "all sequences of hashes and merges", "Through SQL the hashes cannot be chosen, so the corner bit patterns (an all-zero tail, the prefix bits between index and bit 39) do not occur.",
     ["crates/hyperloglogplusplus/src/lib.rs", "crates/hyperloglogplusplus/src/sparse.rs", "crates/hyperloglogplusplus/src/dense.rs", "crates/hyperloglogplusplus/src/registers.rs", "crates/hyperloglogplusplus/src/sparse/varint.rs"], [("encoding", "crates/hyperloglogplusplus/src/sparse.rs Encoded"), ("sparse merge", "Storage::merge_buffers, merge_in"), ("registers", "crates/hyperloglogplusplus/src/registers.rs set_max, merge"), ("dense", "crates/hyperloglogplusplus/src/dense.rs")],
     ["hyperloglogplusplus crate"], "all sequences of up to 2-3 of 48 hashes that differ in every field at precisions 4, 5, 8, 12 x every cut x both orders; all 3-subsets at 4-6; runs of 1..400 (3000) hashes x 5 strides x precisions 4-10 x cuts; sparse pairs at every power-of-two distance; all pairs of register writes", technique=CR)
prop("C47", "count-min sketch counters are the exact sums of what was added and taken away",
     "The countminsketch crate, for every sequence of additions, subtractions and combinations: row r's counter b is the number of additions less subtractions of the items whose hash under key r+1 is b, whichever way the parts are combined; an estimate is the least counter of the item, never below its count when nothing was taken away; a sketch for an error and a probability has the least width and depth that guarantee them.",
     ["histories", "inputs"], "all histories", "The unit tests sample one sketch size; subtraction is not reachable from SQL.",
     ["crates/count-min-sketch/src/lib.rs"], [("counters", "crates/count-min-sketch/src/lib.rs add_value, subtract_value, combine"), ("sizes", "with_prob")],
     ["countminsketch crate"], "all sequences of up to 6 (7) operations over 4 items and a part break x 4 sizes; all 99 x 99 error and probability percentages", technique=CR)
prop("C48", "an update from any earlier version ends in the catalogue of a fresh installation",
     "For every version the control file lists as upgradeable, and every version that stabilized something or comes just before one that did: running the update script made by the post-install tool on an installation with exactly the objects stabilized up to that version, as one transaction, succeeds and leaves the functions, aggregates, types, operators, casts and schemas of a fresh installation, whatever definitions the old functions and aggregates had and whatever the experimental schema held; the user's tables with columns of every old type keep their contents, and views that use every old function, aggregate and operator keep their definitions. post-install names the library after the version, everywhere, drops module_pathname from the control file, keeps permissions and makes one script per listed version.",
     ["histories", "inputs"], "all upgrade paths and all old states", "No test of the repository runs an update script offline; the update-tester needs released versions.",
     ["tools/post-install/src/update_script.rs", "tools/post-install/src/main.rs", "extension/src/stabilization_info.rs", "extension/timescaledb_toolkit.control"], [("scripts", "tools/post-install/src/update_script.rs generate_from_install, new_objects"), ("history", "extension/src/stabilization_info.rs"), ("package", "tools/post-install/src/main.rs")],
     ["post-install tool", "installed catalogue"], "21 shipped versions and every cut of the history x old definitions same or other x experimental schema as now, absent or with other contents", technique="explicit-state exploration of upgrade histories: every old catalogue state is built in PostgreSQL from a frozen history of stabilizations, the script of the real tool is run on it, and the resulting catalogue is compared with a fresh installation")
prop("C49", "the documentation tester reports exactly the SQL blocks whose result is not the documented one",
     "For every directory of Markdown documents: sql-doctester runs every SQL block (not those marked ignore) of every .md file below the directory, in order, and reports a block, by file, line and headings, if and only if it fails or its rows are not the ones of the output block that follows it (none: no rows), in number, order, columns and values, except where ignore-output or a precision limit in bytes, given with the SQL or with the output, says that it does not matter; an error is shown in front of the text the server complains about. A transactional block leaves nothing behind, whether it is right, wrong or fails; a non-transactional one affects exactly the later blocks of its own file. The exit code is 0 if and only if nothing is reported; misplaced outputs and malformed limits are never taken for success; no database is left behind.",
     ["inputs", "histories"], "all documents and all sequences of blocks", "One unit test parses one document; nothing tests the runner.",
     ["tools/sql-doctester/src/parser.rs", "tools/sql-doctester/src/runner.rs", "tools/sql-doctester/src/main.rs"], [("blocks", "tools/sql-doctester/src/parser.rs extract_tests_from_string"), ("results", "tools/sql-doctester/src/runner.rs run_tests, validate_output, stringify_delta, annotate_position"), ("files", "tools/sql-doctester/src/main.rs extract_tests")],
     ["sql-doctester"], "all documents of up to 2 blocks of 26 kinds, of 3 (thorough: 4, and 3 of all kinds) over those that matter for pairing, of up to 3 over 10 kinds with state; every single deviation of small tables x precision limits; error positions after multi-byte text", technique="exhaustive enumeration of bounded documents (sequences of blocks) run through the real tool against PostgreSQL, each run's report compared with the reference reading of the documents")
prop("C50", "the update tester reports exactly the blocks that fail before or after the upgrade, and refuses bad upgrades",
     "For every directory of test documents: `update-tester create-test-objects` gives each document a fresh database of its own with the installed version of the extension and runs its creation blocks, `validate-test-objects` upgrades each of these databases to the new default version and runs the validation blocks; in both phases in order, in one session, in UTC, and only those whose min-toolkit-version is not above the version that was upgraded from (1.4, 1.5 and 1.10.0-dev counting as 1.4.0, 1.5.0 and 1.10.0). A block is reported, by file, line and headings, if and only if it fails or its rows are not those of its output block, except where ignore-output or a precision limit says that it does not matter; an error is shown in front of the text the server complains about. The exit code is 0 if and only if nothing is reported. An upgrade that cannot be done, that leaves any function bound to a toolkit library other than the new version's in any of the databases, or after which any stable function, type or operator is missing, is never accepted; a good one always is, and the working database is gone afterwards.",
     ["inputs", "histories"], "all documents, all upgrade scripts", "Unit tests parse one document; nothing tests the runner (which, in fact, could not be started).",
     ["tools/update-tester/src/parser.rs", "tools/update-tester/src/testrunner.rs", "tools/update-tester/src/main.rs", "crates/scripting-utilities/control_file_reader/src/lib.rs"], [("blocks", "tools/update-tester/src/parser.rs extract_tests_from_string, parse_code_block_info"), ("phases", "tools/update-tester/src/testrunner.rs create_test_objects_from_files, validate_test_objects_from_files"), ("upgrade", "tools/update-tester/src/testrunner.rs check_no_references_to_the_old_binary_leaked, validate_stable_objects_exist")],
     ["update-tester"], "all sequences of 2 blocks of 31 kinds (3 over those that matter for pairing) x phases; 7 old versions x 17 minimum versions x phases; all sequences of up to 3 statements with state x phases; each stable object missing or changed, each foreign library in each database; every single deviation of small tables x precision limits; error positions after multi-byte text", technique="exhaustive enumeration of bounded documents and upgrade scripts, run through the real tool in both phases against PostgreSQL clusters with a stand-in extension, each run's report and verdict compared with the reference reading")
