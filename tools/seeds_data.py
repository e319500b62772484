"""Planted bugs (see seed.py). sql: statements separated by ;; (search_path public, toolkit_experimental)."""
SEEDS = []


HERE = __import__("os").path.dirname(__import__("os").path.abspath(__file__))
def seed(name, prop, file, old, new, sql, needs, breaks):
    edits = [(file, old, new)] if isinstance(file, str) else file
    SEEDS.append(dict(name=name, prop=prop, edits=edits, sql=sql, needs=needs, breaks=breaks))


FR = "extension/src/frequency.rs"
CS = "extension/src/candlestick.rs"
CA = "crates/counter-agg/src/lib.rs"
T = "'2020-01-01 00:00:%02d+00'::timestamptz"


def vals(*rows):
    return "(VALUES " + ",".join("(%s, %s)" % (T % s, v) for s, v in rows) + ") r(t, v)"


seed("c01-second-by-value", "C01", CA,
     "if self.first == self.second {", "if self.first.val == self.second.val {",
     "SELECT idelta_left(counter_agg(t, v)), irate_left(counter_agg(t, v)) FROM " + vals((0, 10.0), (10, 10.0), (20, 15.0)),
     "the first two samples of a counter have the same value and a third, different one follows",
     "the second point keeps moving while the values equal the first one, so idelta_left/irate_left are about the wrong pair")
seed("c02-rate-unchanged", "C02", CA,
     "        if self.single_value() {\n            return None;\n        }\n        Some(self.delta() / self.time_delta())",
     "        if self.num_changes == 0 {\n            return None;\n        }\n        Some(self.delta() / self.time_delta())",
     "SELECT rate(gauge_agg(t, v)) FROM " + vals((0, 10.0), (10, 10.0)),
     "a gauge whose samples all have the same value",
     "the rate of a constant gauge is NULL instead of 0")
seed("c03-combine-penultimate", "C03", CA,
     "if incoming.single_value() {", "if incoming.first == incoming.penultimate {",
     "SELECT idelta_right(rollup(s)), irate_right(rollup(s)) FROM (SELECT v > 15 AS g, counter_agg(t, v) AS s FROM "
     + vals((0, 10.0), (10, 15.0), (20, 20.0), (30, 40.0)) + " GROUP BY 1) x",
     "a rollup whose last part has exactly two points",
     "the part's own first point is taken for its penultimate one only when it is not, so idelta_right spans the border")
seed("c04-range-open-left", "C04", "crates/counter-agg/src/range.rs",
     "(None, Some(r)) => pt < r,", "(None, Some(r)) => pt <= r,",
     "SELECT num_elements(counter_agg(t, v, tstzrange(NULL, '2020-01-01 00:00:10+00'))) FROM " + vals((0, 10.0), (10, 15.0))
     + " ;; SELECT num_elements(with_bounds(counter_agg(t, v), tstzrange(NULL, '2020-01-01 00:00:20+00'))) FROM " + vals((0, 10.0), (10, 15.0)),
     "bounds without a lower end whose (exclusive) upper end is exactly the last sample's time",
     "a sample at the excluded upper end passes the bounds check")
seed("c05-equal-is-reset", "C05", "extension/src/counter_agg.rs",
     "let last = if self.last.val > summary.first.val {", "let last = if self.last.val >= summary.first.val {",
     "SELECT interpolated_delta(s, '2020-01-01 00:00:00+00', '20 s', NULL, n) FROM (SELECT counter_agg(t, v) FILTER (WHERE v < 31) AS s, "
     "counter_agg(t, v) FILTER (WHERE v > 29 AND t > '2020-01-01 00:00:20+00') AS n FROM " + vals((0, 10.0), (10, 30.0), (30, 30.0), (40, 50.0))
     + " WHERE true) x ;; SELECT interpolated_delta(a, '2020-01-01 00:00:00+00', '20 s', NULL, b) FROM "
     "(SELECT counter_agg(t, v) a FROM " + vals((0, 10.0), (10, 30.0)) + ") x, (SELECT counter_agg(t, v) b FROM " + vals((30, 30.0), (40, 50.0)) + ") y",
     "the next bucket begins with the value the current one ended with",
     "interpolation takes an unchanged counter for a reset")
seed("c12-inverse-nan", "C12", "crates/stats-agg/src/stats1d.rs",
     "if p.is_nan() || p.is_infinite() {", "if p.is_infinite() {",
     "SELECT average(stats_agg(v) OVER (ORDER BY t ROWS 1 PRECEDING)), num_vals(stats_agg(v) OVER (ORDER BY t ROWS 1 PRECEDING)) FROM "
     + vals((0, "1.0::float8"), (1, "'NaN'::float8"), (2, 2.0), (3, 3.0), (4, 4.0)),
     "a NaN leaving a moving window",
     "the window's sums are NaN for ever after instead of being recalculated")
seed("c19-overcount-not-merged", "C19", FR,
     "                    new_ent.overcount += other.entries[idx].overcount;\n", "                    new_ent.overcount = new_ent.overcount.max(other.entries[idx].overcount);\n",
     "SELECT value, min_freq, max_freq FROM into_values((SELECT rollup(s ORDER BY o) FROM (SELECT o, freq_agg(0.4, v::int8 ORDER BY i) s FROM "
     "(VALUES (1, 1, 1), (1, 2, 2), (1, 3, 3), (1, 4, 9), (2, 1, 4), (2, 2, 5), (2, 3, 6), (2, 4, 9)) r(o, i, v) GROUP BY o) x)) WHERE value = 9",
     "a value that displaced others in two parts that are combined",
     "the lower bound of its frequency counts occurrences that may not exist")
SA = "extension/src/state_aggregate.rs"
seed("c27-zero-volume-missing", "C27", CS,
     "if let (VolKind::Transaction { vol, vwap }, Some(volume)) = (self.volume, volume) {",
     "if let (VolKind::Transaction { vol, vwap }, Some(volume)) =\n            (self.volume, volume.filter(|v| *v > 0.0))\n        {",
     "SELECT volume(candlestick_agg(t, v, w)), vwap(candlestick_agg(t, v, w)) FROM (VALUES (" + T % 0 + ", 10.0, 2.0), (" + T % 1 + ", 11.0, 0.0), (" + T % 2 + ", 12.0, 3.0)) r(t, v, w)",
     "a tick with volume 0 after the first one",
     "the candlestick loses its volume and vwap")
NM = "extension/src/nmost.rs"
seed("c28-rollup-capacity", "C28", "extension/src/nmost/max_float.rs",
     "        value.capacity as usize,", "        value.elements as usize,",
     "SELECT into_array(rollup(s ORDER BY o)) FROM (SELECT 1 o, max_n(v, 3) s FROM (VALUES (1.0::float8)) r(v) UNION ALL SELECT 2, max_n(v, 3) FROM (VALUES (2.0::float8), (3.0), (4.0)) r(v)) x",
     "a rollup of float8 max_n whose first part holds fewer than n values",
     "the rollup keeps only as many values as its first part had")
TWL = "crates/time-weighted-average/src/lib.rs"
seed("c08-prev-at-start", "C08", "extension/src/time_weighted_average.rs",
     "Some(prev) if interval_start < self.first.ts => {", "Some(prev) if prev.last.ts < interval_start && interval_start < self.first.ts => {",
     "SELECT interpolated_average(b, '2020-01-01 00:00:10+00', '30 s', a, NULL), interpolated_integral(b, '2020-01-01 00:00:10+00', '30 s', a, NULL, 's') FROM "
     "(SELECT time_weight('locf', t, v) a FROM " + vals((0, 10.0), (10, 20.0)) + ") x, (SELECT time_weight('locf', t, v) b FROM " + vals((20, 40.0), (30, 50.0)) + ") y",
     "the previous summary's last point lies exactly at the start of the interval",
     "the stretch between the interval's start and its first point is left out")
seed("c22-multibyte-states", "C22", SA,
     "            let bounds = (states.len() as i64, (states.len() + new_state.len()) as i64);",
     "            let end = states.len() + new_state.chars().map(|c| c.len_utf8().min(3)).sum::<usize>();\n            let bounds = (states.len() as i64, end as i64);",
     "SELECT state, start_time FROM state_timeline((SELECT state_agg(t, v) FROM " + vals((0, "'a'"), (10, "'\U0001F600'"), (20, "'b'")) + "))",
     "a state with a character of four UTF-8 bytes",
     "the state's end is stored short")
seed("c24-start-of-first", "C24", SA,
     "first_cd.start_time -= start_interval;", "first_cd.start_time = prev.last_time;",
     "SELECT state, start_time, end_time FROM interpolated_state_timeline((SELECT state_agg(t, v) FROM " + vals((20, "'a'"), (30, "'b'"))
     + "), '2020-01-01 00:00:15+00', '30 s', (SELECT state_agg(t, v) FROM " + vals((0, "'c'"), (10, "'a'")) + "))",
     "the previous aggregate ended in the state this one begins with, before the interval's start",
     "the first state's time starts at the previous aggregate's last record instead of at the interval's start")


# ---- demonstrations that need a crate's own interface: a small program against the working tree's crate
CRATE_SH = '''#!/bin/bash
# Builds demo.rs against the crate of the working tree in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.txt" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build -q --offline || exit 3
"$d/target/debug/demo"
'''


def crate_seed(name, prop, file, old, new, deps, main, needs, breaks):
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n\n[dependencies]\n'
    toml += "".join(f'{k} = {{ path = "@REPO@/crates/{v}" }}\n' for k, v in deps.items())
    lock = open(HERE + "/../crates_mc/Cargo.lock").read().replace('name = "crates_mc"', 'name = "demo"')
    SEEDS.append(dict(name=name, prop=prop, edits=[(file, old, new)], needs=needs, breaks=breaks,
                      files={"demo.sh": CRATE_SH, "demo.rs": main, "Cargo.toml.txt": toml, "Cargo.lock.txt": lock}))


crate_seed("c47-no-negative-counters", "C47", "crates/count-min-sketch/src/lib.rs",
           "            self.counters[i][bucket] -= 1;", "            self.counters[i][bucket] = (self.counters[i][bucket] - 1).max(0);",
           {"countminsketch": "count-min-sketch"},
           '''use countminsketch::CountMinSketch;
fn main() {
    // one partition sees the deletion of a row that another partition holds
    let mut a = CountMinSketch::with_dim(16, 3);
    a.add_value("x");
    let mut b = CountMinSketch::with_dim(16, 3);
    b.subtract_value("x");
    a.combine(b);
    assert_eq!(a.estimate("x"), 0);
}
''', "a part in which an item is taken away more often than added, combined with the rest", "the taken away rows are counted all the same")
TDL = "crates/t-digest/src/lib.rs"
UPDATE_SH = '''#!/bin/bash
# Runs the post-install tool of the working tree in the current directory on a small package and looks at an update script.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
(cd "$repo/tools/post-install" && CARGO_TARGET_DIR="$d/target" cargo build -q --offline) || exit 3
mkdir "$d/package"
cp "$here/install.txt" "$d/package/timescaledb_toolkit--1.26.0.sql"
cat > "$d/package/timescaledb_toolkit.control" <<'C'
default_version = '1.26.0'
module_pathname = '$libdir/timescaledb_toolkit'
# upgradeable_from = '1.15.0, 1.25.0'
C
touch "$d/package/timescaledb_toolkit.so"
"$d/target/debug/post-install" --dir "$d/package" || exit 1
for v in 1.15.0 1.25.0; do
  if ! diff -B <(grep -v '^ *DROP\\\\|^ *--' "$d/package/timescaledb_toolkit--$v--1.26.0.sql") "$here/update-$v.txt"; then exit 1; fi
done
'''


def update_seed(name, file, old, new, install, u15, u25, needs, breaks):
    SEEDS.append(dict(name=name, prop="C48", edits=[(file, old, new)], needs=needs, breaks=breaks,
                      files={"demo.sh": UPDATE_SH.replace("\\\\", "\\"), "install.txt": install, "update-1.15.0.txt": u15, "update-1.25.0.txt": u25}))


OPX = "CREATE OPERATOR -> (\n\tPROCEDURE=\"arrow_x\",\n\tLEFTARG=Timevector_TSTZ_F64, /* timevector */\n\tRIGHTARG=toolkit_experimental.X /* x */\n);\n"
OPS = "CREATE OPERATOR -> (\n\tPROCEDURE=\"arrow_y\",\n\tLEFTARG=HeartbeatAgg, /* heartbeat_agg */\n\tRIGHTARG=AccessorNumGaps /* y */\n);\n"
US = "tools/post-install/src/update_script.rs"
update_seed("c48-experimental-right-argument", US,
            "            .filter_map(|f| f.as_ref())\n            .any(", "            .take(2)\n            .filter_map(|f| f.as_ref())\n            .any(",
            OPX + OPS, OPX + OPS, OPX,
            "an operator whose right argument alone is of an experimental type", "the update drops the operator with the experimental schema and does not make it again")
TY = "CREATE TYPE AccessorNumGaps;\nCREATE TYPE AccessorNumGaps (\n\tINTERNALLENGTH = variable\n);\n"
update_seed("c48-version-boundary", US, "            version > to_version\n        })\n        .take_while(move |(at, _)| at != &\"prehistory\" && version(at) > from_version)",
            "            version > to_version\n        })\n        .take_while(move |(at, _)| at != &\"prehistory\" && version(at) >= from_version)",
            TY + "CREATE  FUNCTION \"gauge_zero_time\"(\n\t\"summary\" GaugeSummary\n) RETURNS TIMESTAMP WITH TIME ZONE;\n",
            TY + "CREATE FUNCTION \"gauge_zero_time\"(\n\t\"summary\" GaugeSummary\n) RETURNS TIMESTAMP WITH TIME ZONE;\n",
            "CREATE OR REPLACE FUNCTION \"gauge_zero_time\"(\n\t\"summary\" GaugeSummary\n) RETURNS TIMESTAMP WITH TIME ZONE;\n",
            "an update from a version that itself stabilized something", "the update tries to create what is already there and fails")
TVP = "extension/src/time_vector/pipeline/"
HBF = "extension/src/heartbeat_agg.rs"
seed("c32-filter-null", "C32", TVP + "filter.rs",
     "null_val[retained.len() / 8] |= 1 << (retained.len() % 8);", "null_val[retained.len() / 8] |= 1 << (i % 8);",
     "SELECT (timevector(t, v) -> filter($$ $time != '2020-01-01 00:00:00+00't $$))::text FROM " + vals((0, 1.0), (1, 2.0), (2, "NULL"), (3, 4.0)),
     "a filter that drops points before a NULL", "another point is marked as NULL")
seed("c25-at-end", "C25", HBF,
     "    if test < agg.start_time || test > agg.end_time {", "    if test < agg.start_time || test >= agg.end_time {",
     "SELECT live_at(heartbeat_agg(t, '2020-01-01 00:00:00+00', '60 s', '10 s'), '2020-01-01 00:01:00+00') FROM " + vals((10, 1), (55, 1)),
     "asking about the very end of the covered range", "it fails instead of answering")
seed("c10-single-infinite", "C10", "crates/stats-agg/src/stats2d.rs",
     "                self.sy4 = T::nan();\n                self.sxy = T::nan();\n            }\n        }", "                self.sy4 = T::nan();\n            }\n        }",
     "SELECT covariance(stats_agg(v, 1.0), 'population') FROM (VALUES ('Infinity'::float8)) r(v)",
     "the only row has an infinite y", "the covariance is 0 instead of NaN")
seed("c30-unstable-sort", "C30", "extension/src/lttb.rs",
     "            state.series.sort_by_key(|point| point.ts);\n            let downsampled", "            state.series.sort_unstable_by_key(|point| point.ts);\n            let downsampled",
     "SELECT lttb('2020-01-01 00:00:00+00'::timestamptz + make_interval(secs => (x * 7) % 3), (x * 31 % 97)::float8, 9)::text FROM generate_series(1, 200) x",
     "many rows with equal times", "rows of the same time are taken in another than their arrival order")
seed("c35-two-rows", "C35", "extension/src/asap.rs",
     "            && window[0].ts > window[1].ts", "            && window[0].ts > window[1].ts\n            && self.ts.len() > 2",
     "SELECT asap_smooth(t, v, 10)::text FROM " + vals((5, 1.0), (0, 2.0), (7, 3.0)),
     "only the first two rows are out of order", "the rows are smoothed in arrival order")
seed("c34-third-variable", "C34", TVP + "lambda/executor.rs",
     "        self.var_vals[i] = Some(value.clone());", "        let last = self.var_vals.len() - 1;\n        self.var_vals[i.min(last).min(1)] = Some(value.clone());",
     "SELECT (timevector(t, v) -> map($$ let $a = 1.0; let $b = $value + 2.0; let $c = $value * 10.0; $c + $b + $a $$))::text FROM " + vals((0, 1.0), (1, 2.0)),
     "a lambda with three variables, the third used before the second", "the second variable has the third one's value")
UPT_SH = '''#!/bin/bash
# Builds the update tester's parser, from a copy, with another main and looks at what it reads from a document.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/tools" "$d/crates"
cp -r "$repo/tools/update-tester" "$d/tools/"
cp -r "$repo/crates/scripting-utilities" "$d/crates/"
cp "$repo/Cargo.lock" "$d/tools/update-tester/"
printf '\\n[workspace]\\n' >> "$d/tools/update-tester/Cargo.toml"
cp "$here/demo.rs.txt" "$d/tools/update-tester/src/main.rs"
cd "$d/tools/update-tester" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build -q --offline 2> "$d/log" || { cat "$d/log"; exit 3; }
"$d/target/debug/update-tester"
'''


def upt_seed(name, old, new, main, needs, breaks):
    SEEDS.append(dict(name=name, prop="C50", edits=[("tools/update-tester/src/parser.rs", old, new)], needs=needs, breaks=breaks,
                      files={"demo.sh": UPT_SH, "demo.rs.txt": main}))


upt_seed("c50-validation-then-creation", '            "creation" => info.creation = true,\n', '            "creation" => {\n                info.creation = true;\n                info.validation = false;\n            }\n',
         '''#[allow(dead_code)]
mod parser;
fn main() {
    for tags in ["creation,validation", "validation,creation", "validation", "creation", ""] {
        let f = parser::extract_tests_from_string(&format!("```SQL,{tags}\\nSELECT 1\\n```\\n"), "x.md");
        let t = &f.tests[0];
        assert_eq!((t.creation, t.validation), (tags.contains("creation"), tags.contains("validation")), "{tags}");
    }
}
''', "a block marked validation before creation", "the block is not validated after the upgrade")
upt_seed("c50-empty-output-drops", "                        _ => {\n                            let _ = parser.next();\n                        }", "                        Some((Event::Rule, _)) => {\n                            continue 'block_hunt;\n                        }\n\n                        _ => {\n                            let _ = parser.next();\n                        }",
         '''#[allow(dead_code)]
mod parser;
fn main() {
    let f = parser::extract_tests_from_string("```SQL,creation\\nSELECT 1/0\\n```\\n\\ntext\\n\\n---\\n\\n```SQL,validation\\nSELECT 2\\n```\\n", "x.md");
    assert_eq!(f.tests.len(), 2);
}
''', "a block that is followed by a thematic break", "the block is never run")
