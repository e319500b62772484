def d(i, oracle, unspec="", cost="", mut="", reach=""):
    D[i] = {"oracle": oracle, "not": unspec, "cost": cost, "mut": mut, "reach": reach}


SCHED = "Every partition of the rows over partial states, every combine tree and argument order, round trips through serialize/deserialize at every place, empty states; "

d("C01", "`mc/metric.py`: the series sorted by time (first arrival wins at a tie), reset-adjusted with exact rationals; every accessor computed from its definition.",
  "NaN and infinite values (their resets are not defined); more than one value at the same time: the first to arrive counts.",
  "quick 3 s, thorough 15 s", "resets counted at `>=`, swapped penultimate/second points, sums of resets dropped in combine: all reported.")
d("C02", "as C01 without reset adjustment.", "as C01", "quick 3 s; one known finding (`gauge-idelta-decrease`, pinned by the repository's own tests)", "delta from the wrong end, intercept of the wrong line: reported.")
d("C03", "the result of the single pass over the same rows, itself judged by C01/C02; overlap must be refused exactly when the time ranges of two parts overlap.",
  "", "quick 5 s", "", SCHED + "no test combines more than two partials.")
d("C04", "exact rational implementation of the Prometheus extrapolation as written in the documentation and code comments; bounds rules as ranges of integers.",
  "", "quick 53 s")
d("C05", "exact rationals: the previous/next summaries contribute one interpolated point at each border; resets at the border follow the documentation.", "", "quick 20 s")
d("C06", "`mc/tw.py`: exact integral of the step or linear function through the points; average = integral / span; endpoints.", "NaN values (compared only as NaN).", "quick 3 s")
d("C07", "single pass; method mismatch and overlap refused.", "", "quick 29 s", "", SCHED)
d("C08", "exact integral over the interval with the neighbours' points at its borders.", "", "quick 33 s", "the bounded summary built from the unbounded one: unreachable from SQL, covered at crate level by C44.")
d("C09", "`mc/st.py`: exact rational moments, central moments from their definition; tolerance proportional to the condition of the quantity; NaN/infinity by PostgreSQL's rules.",
  "The last bits.", "quick 3 s; known finding `tf-infinite-sum`")
d("C10", "exact least-squares line, covariance, correlation, skewness and kurtosis of both variables.", "results of degenerate inputs (constant x) where the exact answer does not exist: NULL or NaN accepted", "quick 3 s")
d("C11", "single pass.", "", "quick 4 s", "", SCHED)
d("C12", "exact statistics of the rows of each frame; `rolling` of summaries likewise.", "", "quick 8 s")
d("C13", "`mc/udd.py`: the exact sorted values; the estimate must lie within the advertised relative error of an order statistic at rank floor(q*n) (+1 tolerated), and `error()` must be the error of the reached compaction; bucket counts, mean and rank likewise.",
  "NaN input; sizes below the irreducible number of buckets (see section 5).", "quick 24 s", "unbalanced compaction of positive/negative/zero buckets, wrong negative ordering, boundaries off by one: reported.")
d("C14", "single pass bucket by bucket.", "", "quick 6 s", "", SCHED)
d("C15", "`mc/tdig.py`: number, min, max, mean exact; the estimate of a quantile lies between the order statistics around its centroid; rank is monotone and inverse.", "Which centroids a digest forms.", "quick 3 s")
d("C16", "number of values, min, max, mean exact in every schedule, quantiles bracketed as in C15; the C library (`crates/tdigest-lib`, loaded with ctypes) through all merge trees.", "", "quick 5 s", "", SCHED)
d("C17", "`mc/hll.py`: an independent HyperLogLog++ (hash of PostgreSQL's hash functions, sparse and dense representation, bias tables from the paper): the estimate is a function of the set of values and must be equal.",
  "the two off-by-one table ends in `dense.rs` estimate_bias follow the code.", "quick 47 s")
d("C18", "registers of the union = the single pass over all rows.", "only schedules with serialized states (the in-memory state holds no public invariant)", "quick 9 s", "", SCHED)
d("C19", "`mc/freq.py`: exact counts; min_freq <= true frequency <= max_freq, every value above the threshold is listed, into_values consistent, in every schedule.",
  "which of the values below the threshold are kept, order among equal estimates.", "quick 37 s", "overcount after eviction set to the wrong entry, parameters of the first rollup input, min taken from the wrong end: reported.")
d("C20", "as C19, and topn: the answers are the n most frequent exactly when the skew parameter guarantees it, an error otherwise.", "topn(0).", "quick 13 s", "moves by 64-bit index, wrong zeta parameter: reported.")
d("C21", "`mc/cms.py`: independent SipHash-2-4 and table geometry; every counter compared.", "", "quick 9 s")
d("C22", "`mc/state.py`: intervals between the time-ordered rows (last row at a time wins by the documented rule); durations, timelines, instants; names with quotes, multibyte, prefixes of each other.",
  "order of into_values (HashMap); infinite timestamps.", "quick 40 s")
d("C23", "single pass.", "touching rollup parts with conflicting states.", "quick 8 s", "", SCHED)
d("C24", "the intervals of the aggregate extended with the previous aggregate's last state and up to the end of the interval.", "start before the previous aggregate's end for timeline/periods.", "quick 12 s")
d("C25", "`mc/hb.py`: union of [t, t+liveness) within the aggregate's range; uptime, downtime, gaps, ranges, live_at, trim.", "NULL heartbeats (error), liveness <= 0, zero-length trims.", "quick 30 s")
d("C26", "union of all ranges; interpolation adds the previous aggregate's last heartbeat.", "", "quick 33 s")
d("C27", "`mc/cs.py`: open/close by time (first/last arrival rules), exact high/low with their times, exact rational volume and vwap, NULL rules.", "NaN prices; ties in unordered combination: any tied row.", "quick 25 s", "", SCHED)
d("C28", "sorted multiset of the n extreme values.", "capacity <= 0, differing capacities in a rollup, -0.0 versus 0.0, NULL data.", "quick 12 s", "early exit of belongs_in_heap, comparison by reversed order, capacity of the wrong input: reported.", SCHED)
d("C29", "the n extreme values, each with the data of a row that has that value (any of the tied ones).", "which of the rows tied at the n-th value.", "quick 16 s", "", SCHED)
d("C30", "`mc/lttb.py`: buckets and areas with exact rationals; where two areas are equal, each is allowed; gp_lttb splits at gaps and shares the resolution.",
  "NaN/infinite values and repeated times with different values (only containment judged); resolution 1 (error).", "quick 6 s")
d("C31", "`mc/tv.py`: list of rows, null bitmap, flags (sorted only if sorted, nulls if any).", "asof over unsorted input; ties in its left series -> last one.", "quick 16 s", "", SCHED)
d("C32", "`mc/pipe.py`: each element as a function on lists of (time, value|null), exact.", "a series sorted/null-free only by luck may be refused where the flag says unsorted.", "quick about 100 s alone")
d("C33", "composition of the functions of C32 and of the finalizers' models; every way to write the chain (operators left to right, pipeline built first, stored in a table, toasted, through text) must agree.", "finalizers of an empty series may be an empty sketch; null points with counter_agg/hll/percentile finalizers.", "quick 24 s")
d("C34", "`mc/lam.py`: an independent parser of the documented grammar with precedences, a type checker and an evaluator; which token strings are accepted, their type, and the value.", "shadowing of $value/$time, variables outside their let's parentheses, tuples through variables in map; nesting beyond 200 levels may be refused, never crash.", "quick 48 s")
d("C35", "`mc/asap.py`: the ASAP paper's search as the code documents it; where a comparison is decided by rounding, both outcomes are explored and the answer must be one of the resulting windows; the smoothed series is then the exact moving average.", "nulls in the timevector.", "quick 34 s")
d("C36", "the value itself: every observer must answer the same on the copy.", "settings under which PostgreSQL's own timestamptz does not round-trip; extra_float_digits < 1.", "quick 99 s; known finding `stored-type-oid`")
d("C37", "no crash, no hang (240 s), memory below 3 GB; rejected or accepted both fine.", "what an accepted malformed text means.", "quick 19 s")
d("C38", "the function form with the same arguments.", "NULL aggregates and NULL accessors (the operator is strict); trim_to's start is mandatory in the accessor.", "quick 8 s")
d("C39", "the aggregate over each group's rows alone.", "order of state_agg's map entries; datum_test_agg; hyperloglog's and tdigest's representation in long windows (an early final merges the buffer; only num_vals/mean/min/max compared).", "quick 23 s")

d("C40", "Python's calendar on the local date that PostgreSQL prints; exact integers; the formula of the generator.", "infinite timestamps; the distribution of the noise.", "quick 8 s")
d("C41", "the documented byte format, written independently.", "", "quick 4 s (plus the build of the crates, 20 s)", "", "In process, 2.4 million traces.")
d("C42", "the bytes composed by hand from the layout rules.", "buffers cut within the padding behind the last element.", "quick 1 s")
d("C43", "exact sums of integers; the input centroids sorted by their means; the inverse of the scale function.", "which run boundaries a merge chooses.", "quick 2 s", "`digests_per_block` doubled wrongly (only visible from 6 digests on): reported.")
d("C44", "exact rational integrals (integers scaled by 5040).", "", "quick 1 s")
d("C45", "the multiset of bucket keys at the original error, compacted the least number of times that fits.", "sizes below the irreducible bucket count (§5).", "quick 55 s, thorough 10 min")
d("C46", "registers computed from the hashes by definition; linear counting.", "the bias-corrected range of the estimate (C17 covers it through SQL).", "quick 20 s")
d("C47", "integer counts and an independent SipHash.", "", "quick 10 s")
d("C48", "the catalogue (pg_proc, pg_aggregate, pg_type, pg_operator, pg_cast, ...) of a fresh installation of the same tree; the history of released stabilizations is frozen in mc/golden_objects.json.", "properties of types and operators that an update does not alter (the tool leaves them); aggregates that had other support functions are represented by stand-ins with the same signature; TimescaleDB's own objects.", "quick 20 s, thorough 40 s", "version comparison off by one, a type missing from the history, a swallowed CREATE OR REPLACE, operators on an experimental argument: all reported.")
d("C49", "a reference reading of the generated documents: every generated block knows its rows and what it leaves behind.", "the wording of the report beyond place, headings and the error mark; Markdown beyond fenced blocks, headings, paragraphs, lists and `<div hidden>`; values with leading or trailing blanks.", "quick 16 s, thorough 5 min", "heading stack, skipped header lines, ragged rows, committed failures, exit code of 256 failures, files whose name merely ends in md, line counting, statelessness by the last block only: all reported (the precision limit of the SQL block being dropped and three panics were found on the original tree and repaired).")
d("C50", "the same reading of the documents as for C49, for two phases and versions; the stand-in extension's scripts say whether an upgrade is good.", "installing old versions from source (`full-update-test-source`: git, cargo-pgrx and a network); two documents of the same name in different directories; what happens to the working database when validation fails; the wording of the reports.", "quick 30 s, thorough 2 min", "minimum version compared strictly or by minor number only, leak check by prefix or not for the unversioned library, one type or operator not checked, databases not upgraded, blocks of both phases run in one, single failures not counted, working database left, time zone of the server: all reported (on the original tree the tool could not be started at all, and eight further defects came up once it could; all repaired).")

TAIL = '''
## 5. Not covered, and why

* **TimescaleDB itself** (continuous aggregates, chunk-wise and distributed plans)
  is not installed here; its partial aggregation is represented by the
  scheduler's combine/serialize schedules, and `time_bucket` by a stand-in.
* **Real parallel workers.** PostgreSQL's parallel executor calls the same
  combine/serialize functions that the scheduler enumerates; which worker gets
  which page is not under anybody's control, so real parallel plans are not run.
* **Upgrade from the released binaries**: these need a network to fetch; C48
  builds the old states from the recorded history instead, and C50 runs
  `tools/update-tester` with a stand-in extension.
* **uddsketch with fewer buckets than it needs** (a size below the number of
  buckets that even full compaction leaves): a release build does not terminate
  and a debug build overflows. The advertised precondition is a sensible size;
  the spaces of C13/C14 stay above it.
* **Databases that are not UTF-8**, and PostgreSQL versions other than the
  installed one.
* `HyperLogLog++` `dense.rs` uses the neighbouring entry at the ends of its bias
  tables; the model follows the code (within the sketch's error by orders of
  magnitude).
* **Textual forms** are judged by round trip (C36) and robustness (C37), not
  letter by letter: the tests pin them.

## 6. False alarms met and what was done

* Arrival order of rows inside an aggregate with an ORDER BY-less SQL is what the
  executor delivers: checks feed rows in a subquery with an explicit order or
  through the scheduler.
* Space-saving sketches: the first model demanded the exact counters of one
  execution; replaced by the guarantees (bounds and completeness).
* asap: rounding-decided comparisons; now explored both ways.
* uddsketch rank convention: floor(q*n) or the next one, both allowed.
* C39: `state_agg`'s map order, representation of sketches finalized early:
  canonicalised.
* C36: settings in which PostgreSQL's own timestamptz output does not read back.

## 7. Planted bugs

`seeded/` holds those kept (each caught by the check of its property; listed
above under their property). Beyond them about 120 one-line mutants were written from the code
(`operators, borders, wrong operand, dropped update, wrong field`) and run
through the checks of the property that they break while the machinery grew;
the ones missed led to: long series in several orders (C13, C15), many-bucket
sketches (C13), windows of 7/48/130 rows (C39), awkward state names (C22),
values at 2^53 and bigint limits (C09), stored-out-of-line series (C33),
rollups of hundreds of parts (C18), null patterns across byte borders (C31),
groups of 130 to 4200 rows in every partial-aggregation check, exact 110 %
thresholds (C04), ties in arrival order (C30), lambdas with up to five variables
(C34), heartbeats by the thousand followed by another aggregate and parts of two
aggregates (C26, which found two defects), thematic breaks, quotes and comments
between blocks (C49, C50).
'''
