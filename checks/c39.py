"""C39: an aggregate's result depends on its own rows only: interleaved groups, plans, windows, shared states, aborted statements, interleaved cursors."""
import itertools, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit

SETUP = "SET search_path = public, toolkit_experimental; SET timezone = 'UTC'; SET max_parallel_workers_per_gather = 0; SET jit = off; "
N = 6
# row i of the pool: group i // 3 (or i // 2); values of the groups differ, times of the groups overlap
T = [f"'2020-01-01 0{1 + 2 * (i % 3) + i // 3}:00:00+00'::timestamptz" for i in range(N)]
F = ["2.5::float8", "7::float8", "1::float8", "-40::float8", "NULL::float8", "300::float8"]
FP = ["2.5::float8", "7::float8", "1::float8", "40::float8", "30::float8", "300::float8"]
B = ["3::bigint", "5::bigint", "4::bigint", "-3::bigint", "3::bigint", "900::bigint"]
S = ["'a'::text", "repeat('b', 200)", "''", "'c'::text", "repeat('d\"', 100)", "'a'::text"]


def arguments(fn, args):
    """the six rows of arguments for an aggregate, given its [(name, type)]"""
    out = []
    for name, typ in args:
        if typ == "timestamp with time zone":
            out.append(["'2020-01-01'::timestamptz"] * N if name == "agg_start" else T)
        elif typ == "interval":
            out.append(["'1 day'::interval" if name == "agg_duration" else "'30 min'::interval"] * N)
        elif typ == "double precision":
            if name in ("skew", "max_error", "error", "probability", "freq", "frequency", "threshold"):
                out.append(["1.1::float8" if name == "skew" else "0.1::float8"] * N)
            else:
                out.append(FP if name in ("price", "volume") or fn in ("counter_agg",) or fn[3:5] == "_n" else F)
        elif typ == "bigint":
            out.append(["2::bigint"] * N if name == "capacity" else B)
        elif typ == "integer":
            out.append(["64"] * N if fn == "hyperloglog" else ["20"] * N if name in ("size", "buckets") else ["4"] * N)
        elif typ in ("text", "anyelement", "cstring"):
            out.append(["'locf'::text"] * N if name == "method" else S)
        elif typ == "tstzrange":
            out.append(["'[2020-01-01, 2020-01-02)'::tstzrange"] * N)
        else:
            p = part(typ.split(".")[-1])
            if p is None:
                return None
            out.append(p)
    return list(zip(*out))


def part(typ):
    """six values of a type that can be rolled up in order"""
    def two(f, a, b):
        return [f"(SELECT {f} FROM (VALUES ({T[i]}, {a[i]}), ({T[i]} + interval '10 min', {b[i]})) x(t, v))" for i in range(N)]
    R = B[::-1]
    if typ in ("countersummary", "gaugesummary"):
        return two("counter_agg(t, v)" if typ[0] == "c" else "gauge_agg(t, v)", FP, FP[::-1])
    if typ == "timeweightsummary":
        return two("time_weight('linear', t, v)", FP, FP[::-1])
    if typ in ("statssummary1d", "statssummary2d", "uddsketch", "tdigest"):
        return two({"s": "stats_agg(v)" if typ.endswith("1d") else "stats_agg(v, extract(hour FROM t)::float8)", "u": "uddsketch(20, 0.1, v)", "t": "tdigest(20, v)"}[typ[0]], FP, FP[::-1])
    if typ == "hyperloglog":
        return two("hyperloglog(64, v)", B, R)
    if typ == "spacesavingbigintaggregate":
        return two("mcv_agg(4, v)", B, R)
    if typ == "spacesavingtextaggregate":
        return two("mcv_agg(4, v)", S, S[::-1])
    if typ == "spacesavingaggregate":
        return two("raw_mcv_agg(4, v)", S, S[::-1])
    if typ in ("stateagg", "compactstateagg"):
        return two("state_agg(t, v)" if typ[0] == "s" else "compact_state_agg(t, v)", S, S[::-1])
    if typ == "heartbeatagg":
        return [f"(SELECT heartbeat_agg(t, '2020-01-01'::timestamptz + {i % 3} * interval '4 h', '4 h', '30 min') FROM (VALUES ({T[i // 3]} + {i % 3} * interval '4 h')) x(t))" for i in range(N)]
    if typ == "candlestick":
        return [f"candlestick({T[i]}, {FP[i]}, {FP[i]} + 9, {FP[i]} - 1, {FP[i]} + 1, {FP[5 - i]})" for i in range(N)]
    if typ == "timevector_tstz_f64":
        return two("timevector(t, v)", FP, F)
    for mm in ("min", "max"):
        for k, (a, b) in {"floats": (FP, FP[::-1]), "ints": (B, R), "times": (T, T[::-1])}.items():
            if typ == mm + k:
                return two(f"{mm}_n(v, 2)", a, b)
            if typ == f"{mm}by{k}":
                return two(f"{mm}_n_by(v, t::text, 2)", a, b)
    return None


def run(chk):
    chk.start_pg()
    conn = chk.cl.conn()
    conn.q(SETUP)
    aggs, missing = [], []
    for oid, name, ns, sig, fm in conn.q("SELECT p.oid, p.proname, n.nspname, (SELECT json_agg(json_build_array(coalesce(p.proargnames[i + 1], ''), format_type(p.proargtypes[i], NULL)) ORDER BY i)::text FROM generate_series(0, p.pronargs - 1) i), a.aggfinalmodify::text FROM pg_aggregate a JOIN pg_proc p ON p.oid = a.aggfnoid JOIN pg_namespace n ON n.oid = p.pronamespace WHERE n.nspname IN ('public', 'toolkit_experimental') AND p.proname <> 'datum_test_agg' ORDER BY ns(n.nspname), 2, 1".replace("ns(n.nspname)", "n.nspname")):
        sig = json.loads(sig)
        rows = arguments(name, sig)
        if rows is None:
            missing.append(f"{name}({sig})")
            continue
        k = len(sig)
        aggs.append((f"{ns}.{name}({', '.join(t for _, t in sig)})", f"{ns}.{name}({', '.join(f'a{i}' for i in range(k))})", rows, fm == "r"))
    if missing or len(aggs) < 75:
        chk.violation({"aggregates": len(aggs), "missing": missing}, "all aggregates", "missing")
    conn.close()
    three = list(dict.fromkeys(itertools.permutations([0, 0, 0, 1, 1, 1])))
    two = list(dict.fromkeys(itertools.permutations([0, 0, 1, 1, 2, 2])))
    cases = []
    for a in range(len(aggs)):
        for size, orders in ((3, three), (2, two)):
            for o in orders:
                nxt = {g: 0 for g in o}
                seq = []
                for g in o:
                    seq.append(g * size + nxt[g])
                    nxt[g] += 1
                cases.append((a, size, tuple(seq)))
    work = Work(aggs)
    chk.explore("interleavings of groups x plans", cases, work.groups, chunk=110)
    long = [a for a, g in enumerate(aggs) if g[3] and not re.search("hyperloglog|approx_count_distinct", g[0]) and all("SELECT" not in x and "candlestick(" not in x for x in g[2][0])]
    chk.explore("repeated finalization", [(a, n) for a in long for n in (7, 48, 130)], work.longer, chunk=2)
    pairs = list(itertools.product(range(len(aggs)), repeat=2)) if chk.thorough else list(itertools.combinations_with_replacement(range(len(aggs)), 2))
    chk.explore("pairs of aggregates in one statement", pairs, work.pairs, chunk=len(aggs))
    chk.explore("aborted statements", [(a, k, m) for a in range(len(aggs)) for k in range(N + 1) for m in range(4)], work.aborts, chunk=28)
    srfs = sorted(set(SRF))
    moves = [m for n in range(1, chk.pick(6, 8)) for m in itertools.product((0, 1), repeat=n)]
    if not chk.thorough:
        moves = [m for m in moves if len(m) == 5]
    chk.explore("interleaved cursors", [(a, b, m) for a, b in itertools.product(srfs, repeat=2) for m in moves], work.cursors, chunk=len(moves) * 4)


SRF = {
    "unnest((SELECT timevector('2020-01-01'::timestamptz + i * interval '1 h', i) FROM generate_series(1, 4) i))::text",
    "unnest((SELECT timevector('2020-01-01'::timestamptz + i * interval '1 h', -i) FROM generate_series(1, 3) i))::text",
    "topn((SELECT mcv_agg(4, i % 4) FROM generate_series(1::bigint, 9) i), 3)::text",
    "topn((SELECT mcv_agg(4, (i % 4)::text) FROM generate_series(1, 9) i), 3)::text",
    "topn((SELECT raw_mcv_agg(4, (i % 4)::text) FROM generate_series(1, 9) i), 3, NULL::text)",
    "into_values((SELECT freq_agg(0.1, i % 4) FROM generate_series(1::bigint, 9) i))::text",
    "into_values((SELECT raw_freq_agg(0.1, (i % 4)::text) FROM generate_series(1, 9) i), NULL::text)::text",
    "into_values((SELECT max_n(i, 3) FROM generate_series(1::bigint, 9) i))",
    "into_values((SELECT min_n(i::float8, 3) FROM generate_series(1::bigint, 9) i))",
    "into_values((SELECT max_n_by(i, (i * i)::text, 3) FROM generate_series(1::bigint, 9) i), NULL::text)::text",
    "state_timeline((SELECT state_agg('2020-01-01'::timestamptz + i * interval '1 h', (i % 3)::text) FROM generate_series(1, 5) i))::text",
    "state_int_timeline((SELECT state_agg('2020-01-01'::timestamptz + i * interval '1 h', i % 3) FROM generate_series(1::bigint, 5) i))::text",
    "state_periods((SELECT state_agg('2020-01-01'::timestamptz + i * interval '1 h', (i % 2)::text) FROM generate_series(1, 5) i), '1')::text",
    "live_ranges((SELECT heartbeat_agg('2020-01-01'::timestamptz + i * interval '2 h', '2020-01-01', '1 day', '1 h') FROM generate_series(1, 4) i))::text",
    "dead_ranges((SELECT heartbeat_agg('2020-01-01'::timestamptz + i * interval '2 h', '2020-01-01', '1 day', '1 h') FROM generate_series(1, 4) i))::text",
    "((SELECT timevector('2020-01-01'::timestamptz + i * interval '1 h', i) FROM generate_series(1, 4) i) -> unnest())::text",
    "((SELECT timevector('2020-01-01'::timestamptz + i * interval '1 h', i) FROM generate_series(1, 4) i) -> toolkit_experimental.asof((SELECT timevector('2020-01-01'::timestamptz + i * interval '25 min', i) FROM generate_series(1, 4) i)))::text",
}


def canon(x):
    """values without the (unspecified) order in which a state_agg stores its states"""
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if not isinstance(x, str) or "durations_len" not in x:
        return x
    m = re.search(r"durations:\[(.*?)\],combined_durations_len:(\d+),combined_durations:\[(.*?)\],first_time:(-?\d+),last_time:(-?\d+),first_state:(\d+),last_state:(\d+),states:\[(.*?)\],(.*)$", x)
    ds, _, cs, ft, lt, fs, ls, st, rest = m.groups()
    raw = bytes(int(b) for b in st.split(",") if b)
    num = "integer_states:true" in rest
    name = lambda t: (int(t[1]) if num else raw[int(t[0]):int(t[1])].decode())
    dur = [(int(d), name((a, b))) for d, a, b in re.findall(r"duration:(-?\d+),state:\(a:(\d+),b:(-?\d+)\)", ds)]
    com = [(int(d), int(e), name((a, b))) for d, e, a, b in re.findall(r"start_time:(-?\d+),end_time:(-?\d+),state:\(a:(\d+),b:(-?\d+)\)", cs)]
    edge = lambda i: dur[int(i)][1] if int(i) < len(dur) else None
    return json.dumps(["state", sorted(dur, key=str), com, ft, lt, edge(fs), edge(ls), rest])


class Work:
    def __init__(self, aggs):
        self.aggs = aggs

    def pool(self, conn, a):
        cols = range(len(self.aggs[a][2][0]))
        conn.q(f"DROP TABLE IF EXISTS pg_temp.pool{a}")
        conn.q(f"CREATE TEMP TABLE pool{a} AS " + " UNION ALL ".join(f"SELECT {i} AS i, " + ", ".join(f"{r[c]} AS a{c}" for c in cols) for i, r in enumerate(self.aggs[a][2])))

    def src(self, a, seq, size):
        return f"(SELECT u.i / {size} AS g, u.o, p.* FROM unnest(ARRAY[{','.join(map(str, seq))}]) WITH ORDINALITY u(i, o) CROSS JOIN LATERAL (SELECT * FROM pg_temp.pool{a} q WHERE q.i = u.i OFFSET 0) p) s"

    def alone(self, conn, a, rows, memo={}):
        k = (os.getpid(), id(self), a, rows)
        if k not in memo:
            r = conn.try_q(f"SELECT ({self.aggs[a][1]})::text FROM {self.src(a, rows, 1)}")
            memo[k] = "ERR" if isinstance(r, Exception) else canon(r[0][0])
        return memo[k]

    def groups(self, conn, part, out):
        conn.q(SETUP)
        for a in {c[0] for c in part}:
            self.pool(conn, a)
        for a, size, seq in part:
            name, call, _, window = self.aggs[a]
            groups = sorted({i // size for i in seq})
            own = {g: tuple(i for i in seq if i // size == g) for g in groups}
            want = {g: self.alone(conn, a, own[g]) for g in groups}
            if "ERR" in want.values():
                out.violation({"aggregate": name, "rows": own}, "a value", "error")
                continue
            src = self.src(a, seq, size)
            full = self.alone(conn, a, seq)
            w = [[str(g), want[g]] for g in groups]
            res = {}
            res["hash"] = (conn.try_q("SET enable_hashagg = on; SET enable_sort = off") and None, conn.try_q(f"SELECT g, ({call})::text FROM {src} GROUP BY g ORDER BY g"), w)
            conn.q("SET enable_sort = on; SET enable_hashagg = off")
            res["sort"] = (0, conn.try_q(f"SELECT g, ({call})::text FROM (SELECT * FROM {src} ORDER BY g, o) s GROUP BY g ORDER BY g"), w)
            conn.q("SET enable_hashagg = on")
            res["filter"] = (0, conn.try_q("SELECT " + ", ".join(f"({call} FILTER (WHERE g = {g}))::text" for g in groups) + f" FROM {src}"), [[want[g] for g in groups]])
            if full != "ERR":
                r = conn.try_q(f"SELECT g, ({call})::text FROM {src} GROUP BY GROUPING SETS ((g), ()) ORDER BY g NULLS LAST")
                # the grand total may be computed over the rows in sorted order
                tot = self.alone(conn, a, tuple(sorted(seq, key=lambda i: i // size)))
                res["grouping sets"] = (0, r, [w + [[None, full]], w + [[None, tot]]])
            conn.q("RESET enable_sort; RESET enable_hashagg")
            if window:
                pre = [[str(i), self.alone(conn, a, tuple(j for j in own[i // size] if seq.index(j) <= seq.index(i)))] for i in seq]
                if all(p[1] != "ERR" for p in pre):
                    res["window"] = (0, conn.try_q(f"SELECT i, ({call} OVER (PARTITION BY g ORDER BY o))::text FROM {src} ORDER BY o"), pre)
                last = [[str(i), self.alone(conn, a, tuple(j for j in own[i // size] if seq.index(j) <= seq.index(i))[-2:])] for i in seq]
                if all(p[1] != "ERR" for p in last):
                    res["window of two"] = (0, conn.try_q(f"SELECT i, ({call} OVER (PARTITION BY g ORDER BY o ROWS 1 PRECEDING))::text FROM {src} ORDER BY o"), last)
            for how, (_, got, exp) in res.items():
                out.trace(None, len(seq), (a, size, seq, how))
                got = canon(got)
                if isinstance(got, Exception) or (got not in exp if how == "grouping sets" else got != exp):
                    out.violation({"aggregate": name, "order": seq, "group size": size, "plan": how}, exp, str(got) if isinstance(got, Exception) else got)

    def longer(self, conn, part, out):
        """every prefix of a long group, finalized one after another on the same state"""
        conn.q(SETUP)
        sub = {}
        for i in range(N):
            sub.setdefault(T[i], "'2020-01-01'::timestamptz + o * interval '1 min'")
        for col, e in ((F, "(CASE WHEN o % 5 = 4 THEN NULL ELSE o * 7 % 23 - 4 END)::float8"), (FP, "(o * 7 % 23 + 1)::float8"), (B, "(o * 5 % 17)::bigint"), (S, "repeat('s' || o % 9, (o % 4 * 40)::int)")):
            sub[tuple(col)] = e
        for a, n in part:
            name, call, rows, _ = self.aggs[a]
            cols = []
            for c in zip(*rows):
                cols.append(sub[T[0]] if c == tuple(T) else sub[c] if c in sub else c[0])
            conn.q("DROP TABLE IF EXISTS pg_temp.long")
            conn.q(f"CREATE TEMP TABLE long AS SELECT o, " + ", ".join(f"{e} AS a{i}" for i, e in enumerate(cols)) + f" FROM generate_series(1, {n}) o")
            # sketches that may be compressed earlier by a finalization: the same data, another representation (judged in C16; hyperloglog's in C18)
            see = {"public.tdigest": "(SELECT ROW(num_vals(x), mean(x), min_val(x), max_val(x)) FROM (SELECT {} AS x OFFSET 0) y)"}.get(name.split("(")[0], "{}")
            got = conn.try_q(f"SELECT ({see.format('z')})::text FROM (SELECT o, {call} OVER (ORDER BY o) AS z FROM pg_temp.long) w ORDER BY o")
            exp = conn.try_q(f"SELECT (SELECT ({see.format('z')})::text FROM (SELECT {call} AS z FROM (SELECT * FROM pg_temp.long l WHERE l.o <= k.o ORDER BY o) x) w) FROM pg_temp.long k ORDER BY o")
            out.trace(None, n, (a, n))
            if isinstance(got, Exception) or canon(got) != canon(exp):
                bad = None if isinstance(got, Exception) else next(i for i in range(n) if canon(got[i]) != canon(exp[i]))
                out.violation({"aggregate": name, "plan": "window", "rows": n, "first wrong prefix": bad}, None if bad is None else exp[bad], str(got) if bad is None else got[bad])

    def pairs(self, conn, part, out):
        conn.q(SETUP)
        for a in {x for c in part for x in c}:
            self.pool(conn, a)
        seq = (0, 3, 1, 4, 5, 2)
        for a, b in part:
            na, nb = len(self.aggs[a][2][0]), len(self.aggs[b][2][0])
            ca, cb = self.aggs[a][1], self.aggs[b][1].replace("(a", "(b", 1).replace(", a", ", b")
            src = f"(SELECT u.i / 3 AS g, u.o, p.*" + "".join(f", q.a{i} AS b{i}" for i in range(nb)) + f" FROM unnest(ARRAY[0,3,1,4,5,2]) WITH ORDINALITY u(i, o) CROSS JOIN LATERAL (SELECT * FROM pg_temp.pool{a} q WHERE q.i = u.i OFFSET 0) p CROSS JOIN LATERAL (SELECT * FROM pg_temp.pool{b} q WHERE q.i = u.i OFFSET 0) q) s"
            got = conn.try_q(f"SELECT g, ({ca})::text, ({cb})::text, ({ca})::text, ({ca} FILTER (WHERE o % 2 = 0))::text FROM {src} GROUP BY g ORDER BY g")
            exp = [[str(g), self.alone(conn, a, own), self.alone(conn, b, own), self.alone(conn, a, own), self.alone(conn, a, tuple(i for i in own if seq.index(i) % 2))] for g, own in ((0, (0, 1, 2)), (1, (3, 4, 5)))]
            out.trace(None, 12, (a, b))
            if canon(got) != exp:
                out.violation({"aggregates": [self.aggs[a][0], self.aggs[b][0]]}, exp, str(got) if isinstance(got, Exception) else got)

    def aborts(self, conn, part, out):
        conn.q(SETUP)
        for a, k, m in part:
            if k == 0 and m == 0:
                self.pool(conn, a)
            elif not conn.q(f"SELECT to_regclass('pg_temp.pool{a}')")[0][0]:
                self.pool(conn, a)
            name, call, _, _ = self.aggs[a]
            seq = tuple(range(3)) if m % 2 == 0 else tuple(range(3, 6)) if self.alone(conn, a, tuple(range(6))) == "ERR" else tuple(range(6))
            want = self.alone(conn, a, seq)
            bad = f"SELECT ({call})::text FROM (SELECT * FROM {self.src(a, seq, 1)} WHERE 1 / (o - {k + 1}) > -9 OR true) z"
            bad = bad.replace("WHERE 1 / (o - %d) > -9 OR true" % (k + 1), f"WHERE CASE WHEN o = {k + 1} THEN 1 / (o - {k + 1}) > 0 ELSE true END")
            if m < 2:
                conn.q("BEGIN")
                conn.q("SAVEPOINT s")
                r1 = conn.try_q(bad)
                conn.q("ROLLBACK TO s")
                r2 = conn.try_q(f"SELECT ({call})::text FROM {self.src(a, seq, 1)}")
                conn.q("COMMIT")
            else:
                # a cursor left half read inside an aborted transaction
                conn.q("BEGIN")
                conn.q(f"DECLARE c CURSOR FOR SELECT g, ({call})::text FROM {self.src(a, seq, 1)} GROUP BY g")
                conn.try_q(f"FETCH {k} FROM c")
                r1 = conn.try_q("SELECT 1 / 0")
                conn.q("ROLLBACK")
                r2 = conn.try_q(f"SELECT ({call})::text FROM {self.src(a, seq, 1)}")
            out.trace(None, k + len(seq), (a, k, m))
            failed = isinstance(r1, Exception)
            if failed != (m >= 2 or k < len(seq)) or canon(r2) != [[want]]:
                out.violation({"aggregate": name, "fails at row": k, "form": m}, want, str(r2))

    def cursors(self, conn, part, out):
        conn.q(SETUP)
        full = {}
        for a, b, m in part:
            for x in (a, b):
                if x not in full:
                    full[x] = [r[0] for r in conn.q(f"SELECT {x}")]
            qs = f"BEGIN; DECLARE c0 NO SCROLL CURSOR FOR SELECT {a}; DECLARE c1 NO SCROLL CURSOR FOR SELECT {b}"
            conn.q(qs)
            got, pos = [[], []], [0, 0]
            for x in m:
                r = conn.try_q(f"FETCH 1 FROM c{x}")
                got[x] += [str(r)] if isinstance(r, Exception) else [y[0] for y in r]
                pos[x] += 1
            conn.q("CLOSE c0")
            r = conn.try_q("FETCH ALL FROM c1")
            got[1] += [str(r)] if isinstance(r, Exception) else [y[0] for y in r]
            conn.q("COMMIT")
            exp = [full[a][:pos[0]], full[b]]
            out.trace(None, len(m) + 2, (a, b, m))
            if got != exp:
                out.violation({"cursors": [a, b], "fetches": m}, exp, got)


main(run)
