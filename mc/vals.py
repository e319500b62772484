"""For every data type of the extension: expressions that make values of it, and expressions that observe one ({a})."""
import itertools

X = "toolkit_experimental."
TS = ["2000-01-01 00:00:00+00", "2021-11-07 05:30:00+00", "2021-11-07 06:30:00.000001+00", "1999-12-31 23:59:59.999999+00", "0044-03-15 12:00:00+00 BC", "294276-12-31 23:59:59.999999+00"]
FL = ["0", "-0", "1", "-2.5", "0.1", "1e300", "5e-324", "123456789.123456789", "NaN", "Infinity", "-Infinity"]


def q(s):
    return "'" + s.replace("'", "''") + "'"


def agg(fn, rows, cols):
    """SELECT fn FROM (VALUES ...) x(cols)"""
    if not rows:
        return f"(SELECT {fn} FROM (SELECT {','.join('NULL::' + t + ' ' + c for c, t in cols)}) x WHERE false)"
    vs = ",".join("(" + ",".join(("NULL" if v is None else q(str(v))) + "::" + t for v, (c, t) in zip(r, cols)) + ")" for r in rows)
    return f"(SELECT {fn} FROM (VALUES {vs}) x({','.join(c for c, _ in cols)}))"


TV = [("t", "timestamptz"), ("v", "float8")]


def series(vals, ts=TS):
    return list(zip(sorted(ts, key=lambda s: (not s.endswith("BC"), len(s.split("-")[0]), s)), vals))


def values(thorough=False):
    """type -> [SQL expression]"""
    V = {}
    lens = (0, 1, 2, 3, 5)
    pats = [("1", "2", "5", "3", "4", "9"), ("0.1", "0.1", "-0", "1e300", "5e-324", "7"), ("NaN", "1", "Infinity", "-Infinity", "2", "0")]
    ser = [series(p[:n]) for n in lens for p in pats]
    early = [[(f"2020-01-01 00:00:{i:02d}+00", v) for i, v in enumerate(p[:n])] for n in lens for p in pats]
    V["countersummary"] = [agg(f, s, TV) for s in early + ser for f in ("counter_agg(t, v)", "counter_agg(t, v, '[2019-12-31, 2020-01-02)'::tstzrange)", "counter_agg(t, v, '(,)'::tstzrange)", "counter_agg(t, v, '[-infinity,)'::tstzrange)")[:4 if s in early else 1]]
    V["gaugesummary"] = [agg(f, s, TV) for s in early for f in ("gauge_agg(t, v)", "gauge_agg(t, v, '[2019-12-31, 2020-01-02)'::tstzrange)")]
    V["timeweightsummary"] = [agg(f"time_weight('{m}', t, v)", s, TV) for s in early + ser for m in ("Linear", "LOCF")]
    two = list(itertools.product(FL, repeat=2)) if thorough else [(a, b) for i, a in enumerate(FL) for j, b in enumerate(FL) if (i + j) % 3 == 0]
    V["statssummary1d"] = [agg("stats_agg(v)", [(v,) for v in r], [("v", "float8")]) for r in [()] + [(a,) for a in FL] + two + [("1", "2", "3", "4")]]
    V["statssummary2d"] = [agg("stats_agg(v, w)", r, [("v", "float8"), ("w", "float8")]) for r in [()] + [[p] for p in two] + [[("1", "2"), ("3", "4"), ("4", "1")]]]
    V["uddsketch"] = [agg(f"uddsketch({n}, {e}, v)", [(v,) for v in r], [("v", "float8")]) for n, e in ((20, 0.001), (200, 0.01)) for r in [(), ("0",), ("-0",), ("1",), ("-1", "0", "1"), ("1e300", "-1e300"), ("1e-300", "3"), tuple(str(i * 7 % 13 - 6) for i in range(40))]]
    V["uddsketch"] += ["(SELECT percentile_agg(i) FROM generate_series(-3000, 3000) i)", "(SELECT uddsketch(100, 0.0001, exp(i / 10.0)) FROM generate_series(-500, 500) i)"]
    V["tdigest"] = [agg(f"tdigest({n}, v)", [(v,) for v in r], [("v", "float8")]) for n in (10, 100) for r in [(), ("0",), ("-0",), ("1", "1"), ("-1", "0.1", "1e300"), ("NaN", "1"), ("Infinity", "-Infinity"), tuple(str(i * 7 % 13) for i in range(50))]]
    V["tdigest"] += ["(SELECT tdigest(100, i) FROM generate_series(1, 20000) i)"]
    V["hyperloglog"] = [f"(SELECT hyperloglog({n}, {e}) FROM generate_series(1, {m}) i)" for n, ms in ((16, (0, 1, 5, 300)), (64, (0, 1, 5, 300, 5000)), (1024, (1, 300, 5000)), (32768, (1, 5, 5000))) for m in ms for e in ("i", "i::text", "i::float8", "i::numeric", "(i || 'x')::text COLLATE \"C\"", "(i || '''\"\\')::text COLLATE \"POSIX\"", "ARRAY[i]", "mcs.mkenum(i)", "i::\"mc s\".\"my \"\"dom\"")[:9 if n == 64 or thorough else 2]]
    V["spacesavingaggregate"] = [f"(SELECT {f} FROM generate_series(1, {m}) i)" for m in (0, 1, 7, 200) for f in ("raw_freq_agg(0.1, i % 7)", "raw_freq_agg(0.02, (i * i % 11)::numeric)", "raw_mcv_agg(3, i % 5)", "raw_mcv_agg(3, 1.1, i::float8)", "raw_mcv_agg(5, mcs.mkenum(i))", "raw_freq_agg(0.1, ROW(i % 3, 'a, \"b')::mcs.pair)", "raw_mcv_agg(4, ('2020-01-01'::timestamptz + i % 4 * interval '1 h'))", "raw_mcv_agg(4, ARRAY['x', NULL, i::text])", "raw_mcv_agg(3, (i % 3)::\"mc s\".\"my \"\"dom\")")]
    V["spacesavingbigintaggregate"] = [f"(SELECT {f} FROM generate_series(1::bigint, {m}) i)" for m in (0, 1, 7, 200) for f in ("freq_agg(0.1, i % 7)", "mcv_agg(3, i % 5)", "mcv_agg(4, CASE i % 3 WHEN 0 THEN -9223372036854775808 WHEN 1 THEN 9223372036854775807 ELSE i END)", "raw_freq_agg(0.1, i)")[:3]]
    V["spacesavingtextaggregate"] = [f"(SELECT {f} FROM generate_series(1, {m}) i)" for m in (0, 1, 7, 200) for f in ("freq_agg(0.1, (i % 7)::text)", "mcv_agg(3, repeat('x', i % 5 * 100))", "mcv_agg(6, (ARRAY['', ' ', '\"', '\\', 'é𝄞', E'\\n\\t', '''', ')', 'ABC' COLLATE \"C\"])[1 + i % 9])", "mcv_agg(3, (i % 5)::text COLLATE \"C\")")]
    V["countminsketch"] = [f"(SELECT {X}count_min_sketch(i::text, {e}, {p}) FROM generate_series(1, {m}) i)" for m in (0, 1, 50) for e, p in ((0.1, 0.1), (0.01, 0.01), (0.5, 0.9))]
    sts = [[("2020-01-01 00:00:00+00", "a"), ("2020-01-01 01:00:00+00", ""), ("2020-01-01 02:00:00+00", "a"), ("2020-01-02 02:00:00+00", 'q"\\\'é𝄞')], [("2020-01-01 00:00:00+00", "x" * 300)], [(t, s) for t, s in zip(TS, ["s", "t", "u", "s", "v", "t"])], []]
    ST = [("t", "timestamptz"), ("s", "text")]
    SI = [("t", "timestamptz"), ("s", "bigint")]
    isr = [[(t, 2 ** 63 - 1 if i % 3 == 0 else -2 ** 63 if i % 3 == 1 else i) for i, (t, _) in enumerate(s)] for s in sts]
    V["stateagg"] = [agg(f"{f}(t, s)", s, ST) for s in sts for f in ("state_agg",)] + [agg("state_agg(t, s)", s, SI) for s in isr]
    V["compactstateagg"] = [agg(f"{X}compact_state_agg(t, s)", s, ST) for s in sts] + [agg(f"{X}compact_state_agg(t, s)", s, SI) for s in isr]
    HB = [("t", "timestamptz")]
    V["heartbeatagg"] = [agg(f"heartbeat_agg(t, '2020-01-01', '{d}', '{l}')", [(f"2020-01-01 {h:02d}:00:00+00",) for h in hs], HB) for d in ("1 day", "1 mon") for l in ("1 h", "90 min") for hs in ((), (0,), (3,), (3, 4, 5), (1, 5, 9, 13), (23,))]
    V["heartbeatagg"] += [f"interpolate({V['heartbeatagg'][3]}, {V['heartbeatagg'][2]})", f"trim_to({V['heartbeatagg'][4]}, '2020-01-01 05:30', '5 h')"]
    CS = [("t", "timestamptz"), ("p", "float8"), ("v", "float8")]
    V["candlestick"] = [agg("candlestick_agg(t, p, v)", [(t, p, w) for (t, p), w in zip(s, ws)], CS) for s in early[:15:2] + ser[1::3] for ws in (("1", "2", "3", "4", "5", "6"), (None,) * 6, ("0", "5e-324", "1e300", "1", "1", "1"))] + ["candlestick('2020-01-01'::timestamptz, 1, 3, 0.5, 2, NULL)", "candlestick('2020-01-01'::timestamptz, 1, 3, 0.5, 2, 7)", "candlestick('-infinity'::timestamptz, 1, 3, 0.5, 2, 7)", "candlestick('infinity'::timestamptz, 'NaN', 3, 0.5, 2, 'Infinity')"]
    nums = {"floats": ("float8", FL[:7] + FL[9:]), "ints": ("bigint", ["0", "-9223372036854775808", "9223372036854775807", "5"]), "times": ("timestamptz", TS + ["infinity", "-infinity"])}
    for mm in ("min", "max"):
        for k, (t, vs) in nums.items():
            V[mm + k] = [agg(f"{mm}_n(v, {n})", [(v,) for v in vs[:m]], [("v", t)]) for n in (1, 3, 10) for m in (0, 1, 2, len(vs))]
            V[f"{mm}by{k}"] = [agg(f"{mm}_n_by(v, {d}, {n})", [(v, i) for i, v in enumerate(vs[:m])], [("v", t), ("i", "int")]) for n in (1, 3) for m in (1, len(vs)) for d in BY]
    pts = [[("2020-01-01 00:00:00+00", "1"), ("2020-01-01 00:00:00+00", None), ("2019-01-01 00:00:00.5+00", "NaN"), ("2021-01-01 00:00:00+00", "-Infinity")]] + [[(f"2020-01-01 00:{i // 60:02d}:{i % 60:02d}+00", None if i % 3 == 1 and z else f"{i}.5") for i in range(n)] for n in (1, 7, 8, 9, 16, 17, 300) for z in (0, 1)] + ser
    V["timevector_tstz_f64"] = [agg("timevector(t, v)", p, TV) for p in pts] + ["(SELECT timevector(to_timestamp(i), i) FROM generate_series(1, 20000) i)"]
    V["unstabletimevectorpipeline"] = [f"({e})" for e in ["sort()", "lttb(5)", "sort() -> delta()", "abs() -> ceil()", "fill_to('1 h', 'locf')", "fill_to('1 mon 2 days 00:00:00.000001', 'nearest')", "filter($$ $value > 1 and $time > '2020-01-01 00:00:00+00't $$)", "map($$ ($time + '1 day'i, $value ^ 2) $$)", "map($$ let $a = '1 mon'i; ($time + $a, 1.5e300) $$)", "map_data('mcs.dbl(float8)'::regprocedure)", "map_data('mcs.\"D \"\"bl\"(float8)'::regprocedure)", "map_series('mcs.ser(timevector_tstz_f64)'::regprocedure)", "add(0.1)", "mul('NaN')", "power('Infinity')", "logn(2)", "round() -> sort() -> delta() -> abs() -> sub(5e-324)"]]
    V["lambda"] = [f"$l${e}$l$::{X}lambda" for e in ["$value + 1", "$time", "'2020-01-01 00:00:00+00't", "'1 mon -2 days'i", "let $a = -$value; ($a, $time + '1 h'i)", "sqrt(abs($value)) >= 1e300 and not (1 = 2)"]]
    for e in ("average", "num_vals", "sum", "stats_agg", "counter_agg", "unnest", "hyperloglog", "percentile_agg"):
        t = X + "pipelinethen" + e.replace("_", "")
        c = X + "stats_agg()" if e == "stats_agg" else e + "()::" + t if e in ("average", "num_vals", "sum", "unnest") else X + e + ("(64)" if e == "hyperloglog" else "()")
        if e == "unnest":
            c = f"'(version:1,num_elements:0,elements:[])'::{t}"
        fin = (lambda p, c=c, e=e: f"{X}finalize_with_{e}({p}, {c})") if e in ("stats_agg", "counter_agg", "hyperloglog", "percentile_agg") else (lambda p, c=c: f"(({p}) -> {c})")
        V["pipelinethen" + e.replace("_", "")] = [c] + [fin(p) for p in (X + "sort()", f"{X}sort() -> delta() -> {X}abs()", f"{X}add('NaN') -> {X}fill_to('1 mon', 'linear')")]
    V["pipelineforcematerialize"] = ["materialize()", "abs() -> materialize()"]
    return V


# data of any type for min_n_by / max_n_by
BY = ["i", "(i || 'x')::text", "repeat('\"\\ é', i * 40)", "ROW(i, E'a\\n,\"b')::mcs.pair", "ARRAY[i, NULL]", "mcs.mkenum(i)", "i::\"mc s\".\"my \"\"dom\"", "i::numeric / 7", "i % 2 = 0", "(i || ' mons')::interval", "md5(i::text)::uuid", "i::float4", "json_build_object('k', i)::jsonb"]
SETUP = r"""
SET search_path = public, toolkit_experimental;
CREATE SCHEMA mcs; CREATE SCHEMA "mc s";
CREATE TYPE mcs.en AS ENUM ('a', 'b c', 'd"e');
CREATE FUNCTION mcs.mkenum(int) RETURNS mcs.en LANGUAGE sql IMMUTABLE AS 'SELECT (enum_range(NULL::mcs.en))[1 + $1 % 3]';
CREATE TYPE mcs.pair AS (a int, b text);
CREATE DOMAIN "mc s"."my ""dom" AS int;
CREATE FUNCTION mcs.dbl(float8) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT $1 * 2';
CREATE FUNCTION mcs."D ""bl"(float8) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT $1 * 2';
CREATE FUNCTION mcs.ser(timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT $1';
"""

PC = ["-1", "0", "0.25", "0.5", "0.9", "1"]
T0 = "'2019-12-31 23:59:59+00'::timestamptz"
SRIES = "(SELECT timevector('2020-01-01'::timestamptz + i * interval '1 min', (i * 7 % 5)::float8) FROM generate_series(1, 12) i)"


def srf(call):
    return f"(SELECT json_agg(r::text)::text FROM {call} r)"


def observers():
    """type -> [SQL expression over {a}], besides the functions of one argument that the catalog lists"""
    O = {}
    M = ["'population'", "'sample'"]
    O["countersummary"] = [f"extrapolated_delta({{a}}, 'prometheus')", "extrapolated_rate({a}, 'prometheus')", "with_bounds({a}, '[2019-01-01, 2021-01-01)')::text", f"interpolated_delta({{a}}, {T0}, '1 min', {{a}}, {{a}})", f"interpolated_rate({{a}}, {T0}, '1 min', NULL, NULL)", "rollup_({a})"]
    O["gaugesummary"] = ["with_bounds({a}, '[2019-01-01, 2021-01-01)')::text", f"interpolated_delta({{a}}, {T0}, '1 min', {{a}}, {{a}})"]
    O["timeweightsummary"] = ["integral({a}, 'hour')", f"interpolated_average({{a}}, {T0}, '1 min', {{a}}, {{a}})", f"interpolated_integral({{a}}, {T0}, '1 min', NULL, NULL)"]
    O["statssummary1d"] = [f"{f}({{a}}, {m})" for f in ("stddev", "variance", "skewness", "kurtosis") for m in M]
    O["statssummary2d"] = [f"{f}_{x}({{a}}, {m})" for f in ("stddev", "variance", "skewness", "kurtosis") for m in M for x in "xy"] + [f"covariance({{a}}, {m})" for m in M]
    O["uddsketch"] = [f"approx_percentile({p}, {{a}})" for p in PC[1:]] + [f"approx_percentile_rank({v}, {{a}})" for v in (-1, 0, 0.5, 1e9)] + ["approx_percentile_array(ARRAY[0.1,0.5], {a})::text"]
    O["tdigest"] = [f"approx_percentile({p}, {{a}})" for p in PC[1:]] + [f"approx_percentile_rank({v}, {{a}})" for v in (-1, 0, 0.5, 1e9)]
    O["spacesavingbigintaggregate"] = ["min_frequency({a}, 1)", "max_frequency({a}, 2)", srf("topn({a}, 2)")]
    O["spacesavingtextaggregate"] = ["min_frequency({a}, '1'::text)", "max_frequency({a}, ''::text)", srf("topn({a}, 2)")]
    O["spacesavingaggregate"] = [x for t, v in (("int", "1"), ("numeric", "1"), ("float8", "1"), ("mcs.en", "a"), ("mcs.pair", "(1,\"a, \"\"b\")"), ("timestamptz", "2020-01-01 01:00:00+00"), ("text[]", "{x,NULL,1}")) for x in (f"min_frequency({{a}}, '{v}'::{t})", f"max_frequency({{a}}, '{v}'::{t})", srf(f"topn({{a}}, 2, NULL::{t})"), srf(f"into_values({{a}}, NULL::{t})"))]
    O["countminsketch"] = [f"{X}approx_count('{v}', {{a}})" for v in (0, 1, 7, 50)]
    st = ["duration_in({a}, {s})", "duration_in({a}, {s}, " + T0 + ", '1 h')", "interpolated_duration_in({a}, {s}, " + T0 + ", '1 h', NULL)"]
    O["stateagg"] = [e.replace("{s}", s) for e in st + [srf("state_periods({a}, {s})"), srf("interpolated_state_periods({a}, {s}, " + T0 + ", '1 h', NULL)")] for s in ("'a'::text", "'s'::text", "2::bigint", "9223372036854775807")] + [f"state_at({{a}}, {T0})", f"state_at_int({{a}}, {T0})"]
    O["compactstateagg"] = [X + e.replace("{s}", s) for e in st for s in ("'a'::text", "'s'::text", "2::bigint", "9223372036854775807")]
    O["heartbeatagg"] = ["live_at({a}, '2020-01-01 03:30')", "live_at({a}, '2020-01-01 12:30')", "interpolated_uptime({a}, {a})", "interpolated_downtime({a}, NULL)", "trim_to({a}, '2020-01-01 04:00')::text"]
    for mm in ("min", "max"):
        for k in ("floats", "ints", "times"):
            O[f"{mm}by{k}"] = [srf(f"into_values({{a}}, NULL::{t})") for t in ("int", "text", "mcs.pair", "int[]", "mcs.en", '"mc s"."my ""dom"', "numeric", "bool", "interval", "uuid", "float4", "jsonb")]
    O["timevector_tstz_f64"] = [f"({{a}} -> {X}sort() -> {X}abs())::text", "lttb({a}, 3)::text", "asap_smooth({a}, 10)::text"]
    O["unstabletimevectorpipeline"] = [f"({SRIES} -> {{a}})::text"]
    O["lambda"] = [f"({SRIES} -> {X}map({{a}}))::text", f"{X}trace_lambda('2020-02-02 00:00:00+00', -2.5, {{a}})" if False else f"({SRIES} -> {X}filter({{a}}))::text"]
    for t in ("average", "numvals", "sum", "statsagg", "counteragg", "hyperloglog", "percentileagg"):
        O["pipelinethen" + t] = [f"({SRIES} -> {{a}})::text"]
    O["pipelinethenunnest"] = [srf(f"unnest({SRIES} -> {{a}})") if False else f"(SELECT count(*) FROM (SELECT {SRIES} -> {{a}}) x)"]
    O["pipelineforcematerialize"] = [f"({SRIES} -> {{a}})::text"]
    for l in O.values():
        while "rollup_({a})" in l:
            l.remove("rollup_({a})")
    return O


def catalog(conn):
    """type -> (qualified name, [observer])"""
    O, R = observers(), {}
    for name, ns, fns in conn.q("SELECT t.typname, n.nspname, (SELECT string_agg(pn.nspname || '.' || p.proname || CASE WHEN p.proretset THEN '*' ELSE '' END, ' ' ORDER BY p.proname, p.oid) FROM pg_proc p JOIN pg_namespace pn ON pn.oid = p.pronamespace WHERE p.pronargs = 1 AND p.prokind = 'f' AND p.proargtypes[0] = t.oid AND p.proname NOT LIKE '%\\_out' AND pn.nspname IN ('public', 'toolkit_experimental')) FROM pg_type t JOIN pg_namespace n ON n.oid = t.typnamespace WHERE t.typtype = 'b' AND t.typelem = 0 AND n.nspname IN ('public', 'toolkit_experimental') ORDER BY 1"):
        obs = ["{a}"]
        for f in (fns or "").split():
            obs.append(srf(f[:-1] + "({a})") if f.endswith("*") else f + "({a})")
        R[name] = (f"{ns}.{name}", obs + O.get(name, []))
    return R


# arguments of the accessor functions, by parameter name or type
ARGS = {"method": ["'population'", "'sample'", "'prometheus'", "'pop'", "'bogus'"], "unit": ["'second'", "'hour'", "'microseconds'", "'bogus'"], "state": None,
        "float8": ["0::float8", "0.25", "0.9", "1::float8", "-1", "'NaN'::float8", "5e7", "0.1"], "float8[]": ["ARRAY[0.1, 0.5]", "'{}'::float8[]", "ARRAY[0, 1, 0.99]::float8[]"],
        "timestamptz": ["'2019-12-31 23:59:59.5+00'::timestamptz", "'2020-01-01 03:30+00'::timestamptz", "'2021-11-07 06:00:00+00'::timestamptz"], "interval": ["'1 day'::interval", "'1 mon 90 min'::interval"],
        "bigint": ["0::bigint", "1::bigint", "2::bigint", "9223372036854775807", "-9223372036854775808"], "int4": ["0", "1", "3", "-1"], "text": ["'a'::text", "'s'::text", "''::text", "E'q\"\\\\\\'\u00e9\U0001d11e'::text", "'nope'::text"],
        "tstzrange": ["'[2019-01-01 00:00+00,2021-01-01 00:00+00)'::tstzrange", "'(,)'::tstzrange", "'[-infinity,2020-01-01 00:00:02+00]'::tstzrange", "'empty'::tstzrange", "'(2020-01-01 00:00:03+00,)'::tstzrange"]}
ARGS["double precision"], ARGS["double precision[]"], ARGS["timestamp with time zone"], ARGS["integer"] = ARGS["float8"], ARGS["float8[]"], ARGS["timestamptz"], ARGS["int4"]
PREV = {"countersummary": [f"(SELECT counter_agg('{d} 12:00+00'::timestamptz + i * interval '1 h', i * 10.5) FROM generate_series(0, 3) i)" for d in ("2019-12-31", "2021-12-31")],
        "gaugesummary": [f"(SELECT gauge_agg('{d} 12:00+00'::timestamptz + i * interval '1 h', i * 10.5) FROM generate_series(0, 3) i)" for d in ("2019-12-31", "2021-12-31")],
        "timeweightsummary": [f"(SELECT time_weight('{m}', '{d} 12:00+00'::timestamptz + i * interval '1 h', i * 10.5) FROM generate_series(0, 3) i)" for d in ("2019-12-31", "2021-12-31") for m in ("Linear", "LOCF")],
        "heartbeatagg": ["(SELECT heartbeat_agg('2019-12-31 21:30+00'::timestamptz + i * interval '1 h', '2019-12-31', '1 day', '90 min') FROM generate_series(0, 2) i)"],
        "stateagg": ["(SELECT state_agg('2019-12-31 21:30+00'::timestamptz + i * interval '1 h', CASE i WHEN 1 THEN 'a' ELSE 's' END) FROM generate_series(0, 2) i)", "(SELECT state_agg('2019-12-31 21:30+00'::timestamptz + i * interval '1 h', i::bigint) FROM generate_series(0, 2) i)"],
        "timevector_tstz_f64": ["(SELECT timevector('2019-12-31 21:30+00'::timestamptz + i * interval '10 min', i) FROM generate_series(0, 20) i)", "(SELECT timevector('2019-12-31 21:30+00'::timestamptz + i * interval '10 min', i) FROM generate_series(0, 20) i WHERE i > 90)"]}


def constructors(conn, with_null=False, every=False):
    """accessor type -> [(function name, [argument expressions])] for all combinations of arguments.
    Unless every: all values of each argument, the others at their first value, plus the last values."""
    R = {}
    for ns, name, rt, names, types, nd in conn.q("SELECT n.nspname, p.proname, (SELECT typname FROM pg_type WHERE oid = p.prorettype), coalesce(array_to_string(p.proargnames, ','), ''), (SELECT string_agg(format_type(x, NULL), '|' ORDER BY o) FROM unnest(p.proargtypes) WITH ORDINALITY y(x, o)), p.pronargdefaults FROM pg_proc p JOIN pg_namespace n ON n.oid = p.pronamespace JOIN pg_type t ON t.oid = p.prorettype WHERE t.typname LIKE '%accessor%' AND p.prokind = 'f' AND n.nspname IN ('public', 'toolkit_experimental') AND 'cstring'::regtype::oid != ALL (p.proargtypes) ORDER BY 1, 2, p.oid"):
        if not types:
            R.setdefault(rt, []).append((ns, name, []))
            continue
        lists = []
        for nm, ty in zip(names.split(","), types.split("|")):
            short = ty.split(".")[-1]
            if short in PREV:
                l = ["NULL::" + ty] + PREV[short]
            else:
                l = ARGS.get(nm) or ARGS[ty]
            lists.append(list(l) + ([f"NULL::{ty}"] if with_null else []))
        if every:
            combos = list(itertools.product(*lists))
        else:
            combos = [tuple(x if k == j else l[0] for k, l in enumerate(lists)) for j, lj in enumerate(lists) for x in lj] + [tuple(l[-1] for l in lists)]
        for cb in dict.fromkeys(combos):
            R.setdefault(rt, []).append((ns, name, list(cb)))
        for d in range(1, int(nd) + 1):     # defaults
            R[rt].append((ns, name, [l[-1 if len(l) > 1 else 0] for l in lists[:len(lists) - d]]))
    return R
