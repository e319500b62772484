"""C30: lttb and gp_lttb outputs are Largest-Triangle-Three-Buckets downsamplings of the time-ordered rows."""
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit, fl
from aggrun import run, Err
import lttb as L

S = 1_000_000
BASE = 789_000_000 * S  # 2025
T = "timevector_tstz_f64"
FLAGS = "substring(a::text from 'flags:(\\d+)')"
NULLS = "substring(a::text from 'null_val:\\[([^]]*)\\]')"


def rows_text(case):
    return [(ts(t), None if v is None else fl(v)) for t, v in case]


def series(times, vals):
    return [(t, float(v)) for t, v in zip(times, vals)]


def small(maxn):
    """All series of up to maxn points over two gaps and three values."""
    for n in range(1, maxn + 1):
        for gaps in itertools.product((1, 3), repeat=n - 1):
            if n > 4 and len(set(gaps)) > 1 and gaps not in ((1, 3) * n, (3, 1) * n, (1,) * (n - 2) + (3,), (3,) + (1,) * (n - 2)):
                if sum(gaps) % 4:
                    continue
            for vs in itertools.product((0.0, 1.0, -3.5), repeat=n):
                t, ts_ = BASE, []
                for g in (0,) + gaps:
                    t += g * S
                    ts_.append(t)
                yield tuple(series(ts_, vs))


def shapes(n, seed):
    """Structured longer series: times from a few spacings, values from a few recurrences."""
    vs, x = [], seed
    for i in range(n):
        x = (x * 1103515245 + 12345 + seed) % (1 << 31)
        vs.append({0: (x >> 16) % 100 / 4, 1: float(i % 7), 2: float((i * i) % 11 - 5), 3: 2.0, 4: float(i)}[seed % 5])
    step = (S, 7 * S, 86400 * S)[seed % 3]
    return tuple((BASE + i * step + (i * i % 5) * S // 10, v) for i, v in enumerate(vs))


def run_(chk):
    chk.start_pg()
    COLS = [L.POINTS % "a", FLAGS, NULLS]

    def check_out(out, case, r, w):
        """flags and null bits of a downsampled series."""
        if isinstance(r, Err):
            out.violation(case, "no error", repr(r))
            return None
        p = L.points(r[0])
        if int(r[1]) & 1 != 1 or set((r[2] or "").split(",")) - {"0", ""}:
            out.violation(case, "a sorted series without nulls", r[1:])
        return p

    # ---- lttb(ts, value, resolution): every small series, every resolution, every arrival order
    cases = []
    for s in small(chk.pick(5, 6)):
        n = len(s)
        for k in range(3, n + 2):
            cases.append((s, k, tuple(range(n))))
    for s in itertools.islice(small(4), 0, None, 5):
        n = len(s)
        for k in range(3, n + 1):
            for perm in itertools.permutations(range(n)):
                cases.append((s, k, perm))
    for n in (7, 8, 10, 12, 13, 17, 24, 33, 40):
        for seed in range(chk.pick(10, 30)):
            s = shapes(n, seed)
            for k in range(3, n + 1):
                cases.append((s, k, tuple((i * 7 + seed) % n for i in range(n)) if n % 7 else tuple(range(n))))

    def work(conn, part, out):
        res = run(conn, T, "lttb(timestamptz,float8,int)", COLS, [("[*", [(a, b, k) for a, b in rows_text([s[i] for i in o])]) for s, k, o in part])
        for (s, k, o), r in zip(part, res):
            case = {"lttb": k, "rows": [s[i] for i in o]}
            out.trace(case, steps=len(s), state=(s, k, o))
            p = check_out(out, case, r, None)
            if p is not None:
                w = L.judge(list(s), k, p)
                if w:
                    out.violation(case, w, p)
    chk.explore("lttb: series x resolution x arrival order", cases, work, chunk=300)

    # ---- rows of the same time keep the order in which they arrive
    cases = []
    for n in (2, 5, 20, 21, 40, 130, 1100):
        for d in (2, 3, n):
            for o in ("asc", "desc", "stride"):
                m = -(-n // d)
                ts_ = [i % m for i in range(n)] if o == "asc" else [m - 1 - i % m for i in range(n)] if o == "desc" else [i * 7 % m for i in range(n)]
                cases.append(tuple((BASE + t * S, float(i)) for i, t in enumerate(ts_)))

    def work_ties(conn, part, out):
        for agg, ex in (("lttb(timestamptz,float8,int)", ()), ("toolkit_experimental.gp_lttb(timestamptz,float8,interval,int)", ("1 day",))):
            for s in part:
                r = run(conn, T, agg, COLS, [("[*", [(a, b) + ex + (max(len(s), 3),) for a, b in rows_text(s)])])[0]
                case = {"agg": agg, "rows": s[:40], "n": len(s)}
                out.trace(case, steps=len(s), state=(agg, len(s), s[:20]))
                p = check_out(out, case, r, None)
                e = sorted(s, key=lambda x: x[0])
                if p is not None and [(int(a), float(b)) for a, b in p] != e:
                    out.violation(case, e[:40], p[:40])
    chk.explore("same times keep their arrival order", cases, work_ties, chunk=3)

    # ---- the same on a timevector: function, pipeline element; n <= 2, unsorted, nulls
    cases = []
    for s in itertools.islice(small(chk.pick(5, 6)), 0, None, 3):
        for k in [0, 2] + list(range(3, len(s) + 2)):
            cases.append((s, k))
    for n in (9, 16, 31):
        for seed in range(10):
            for k in range(2, n + 1, 3):
                cases.append((shapes(n, seed), k))

    def work_tv(conn, part, out):
        v = ",".join(f"({i},{k},{lit('|'.join(f'{t}' for t, _ in s))},{lit('|'.join(repr(x) for _, x in s))})" for i, (s, k) in enumerate(part))
        forms = ["lttb(tv, k)", "(tv -> toolkit_experimental.lttb(k))", "(SELECT lttb(t, x, k) FROM unnest(tv) u(t, x))"]
        for form in forms:
            sub = f"(SELECT i, CASE WHEN {'k > 2' if 'SELECT' in form else 'true'} THEN {form} END AS a FROM (SELECT i, k, (SELECT timevector('2000-01-01 00:00:00+00'::timestamptz + (t || ' us')::interval, x::float8 ORDER BY o) FROM unnest(string_to_array(ts, '|'), string_to_array(xs, '|')) WITH ORDINALITY z(t, x, o)) tv FROM (VALUES {v}) v(i, k, ts, xs) OFFSET 0) w OFFSET 0)"
            for r in conn.q(f"SELECT i, {','.join(COLS)} FROM {sub} z WHERE a IS NOT NULL ORDER BY i"):
                s, k = part[int(r[0])]
                case = {"form": form, "k": k, "series": s}
                out.trace(case, steps=len(s), state=(form, s, k))
                p = check_out(out, case, r[1:], None)
                w = L.judge(list(s), k, p)
                if w:
                    out.violation(case, w, p)
    chk.explore("lttb of a timevector: function, pipeline, aggregate of its points", cases, work_tv, chunk=100)

    # ---- NULL values are not points; rows that differ only in arrival; no rows
    cases = []
    for s in itertools.islice(small(4), 0, None, 7):
        n = len(s)
        for mask in itertools.product((0, 1), repeat=n):
            if any(mask):
                for k in (3, 4):
                    cases.append((s, mask, k))

    def work_null(conn, part, out):
        for agg, ex in (("lttb(timestamptz,float8,int)", ()), ("toolkit_experimental.gp_lttb(timestamptz,float8,int)", ()), ("toolkit_experimental.gp_lttb(timestamptz,float8,interval,int)", ("2 s",))):
            res = run(conn, T, agg, COLS, [("[*", [(a, b) + ex + (k,) for a, b in rows_text([(t, None if m else x) for (t, x), m in zip(s, mask)])]) for s, mask, k in part])
            for (s, mask, k), r in zip(part, res):
                case = {"agg": agg, "k": k, "rows": [(t, None if m else x) for (t, x), m in zip(s, mask)]}
                out.trace(case, steps=len(s), state=(agg, s, mask, k))
                d = [p for p, m in zip(s, mask) if not m]
                if not d:
                    if isinstance(r, Err) or r[0] is not None:
                        out.violation(case, "NULL", repr(r))
                    continue
                p = check_out(out, case, r, None)
                if p is None:
                    continue
                w = L.judge(d, k, p) if "gp_" not in agg else L.judge_gp(d, k, 2 * S if ex else None, p)
                if w:
                    out.violation(case, w, p)
    chk.explore("NULL values", cases, work_null, chunk=200)

    # ---- gp_lttb: every pattern of gaps
    cases = []
    for n in range(1, chk.pick(8, 9)):
        for g in itertools.product((1, 10), repeat=n - 1):
            t, tt = BASE, [BASE]
            for d in g:
                t += d * S
                tt.append(t)
            for vseed in range(3):
                s = tuple((x, (float((i * i * (vseed + 2) + i) % 7), float(i % 2), 1.0)[vseed]) for i, x in enumerate(tt))
                for k in (3, 4, 5, 6, 9):
                    for gap in (None, 1, 5, 9.9, 10):
                        if (n + k) % 2 == 0 or n < 6:
                            cases.append((s, k, gap))
    for n in (20, 33, 60):
        for pat in range(1, 1 << 4):
            tt, t = [], BASE
            for i in range(n):
                t += S * (1 if (pat >> (i * 4 // n)) & 1 or i % 5 else 50)
                tt.append(t)
            for k in (5, 8, 13, n // 2, n - 1):
                for gap in (None, 10):
                    cases.append((tuple((x, float((i * 37) % 11)) for i, x in enumerate(tt)), k, gap))

    def work_gp(conn, part, out):
        for withgap in (False, True):
            sub = [c for c in part if (c[2] is not None) == withgap]
            agg = "toolkit_experimental.gp_lttb(timestamptz,float8,interval,int)" if withgap else "toolkit_experimental.gp_lttb(timestamptz,float8,int)"
            res = run(conn, T, agg, COLS, [("[*", [(a, b) + ((f"{gap} s",) if withgap else ()) + (k,) for a, b in rows_text(s[::-1] if k % 2 else s)]) for s, k, gap in sub])
            for (s, k, gap), r in zip(sub, res):
                case = {"gp_lttb": k, "gap": gap, "rows": s}
                out.trace(case, steps=len(s), state=(s, k, gap))
                p = check_out(out, case, r, None)
                if p is None:
                    continue
                w = L.judge_gp(list(s), k, None if gap is None else int(gap * S), p)
                if w:
                    out.violation(case, w, p)
    chk.explore("gp_lttb: gap patterns x resolution x gap", cases, work_gp, chunk=300)

    # ---- long series: means of buckets of many points
    big = [(f, n, k) for n, ks in ((2000, (3, 10, 199, 1999)), (chk.pick(30000, 90000), (3, 4, 500))) for k in ks for f in (1, 2, 3)]

    def work_big(conn, part, out):
        for f, n, k in part:
            e = {1: "(i*i % 1009)::float8", 2: "sin(i/50.0)*100", 3: "((i*7919) % 10007)::float8/16"}[f]
            src = f"(SELECT '2025-06-01'::timestamptz + i * interval '1 second' t, round(({e})::numeric,6)::float8 v FROM generate_series(0,{n - 1}) i)"
            data = L.points(conn.q(f"SELECT string_agg((extract(epoch from t)*1000000)::int8 || ' ' || v, '|' ORDER BY t) FROM {src} d")[0][0])
            for form in (f"SELECT lttb(t,v,{k}) a FROM {src} d", f"SELECT lttb(timevector(t,v ORDER BY t),{k}) a FROM {src} d", f"SELECT toolkit_experimental.gp_lttb(t,v,{k}) a FROM {src} d"):
                case = {"sql": form}
                out.trace(case, steps=n, state=case["sql"])
                r = conn.q(f"SELECT mctry({lit('SELECT ' + L.POINTS % 'a' + f' FROM ({form}) z')})")[0][0]
                if r and r.startswith("ERR"):
                    out.violation(case, "no error", r)
                    continue
                p = L.points(r)
                w = L.judge_gp(data, k, None, p) if "gp_" in form else L.judge(data, k, p)
                if w:
                    out.violation(case, w, p[:20])
    chk.explore("long series", big, work_big, chunk=2)

    # ---- refused inputs
    tv = "(SELECT timevector(t::timestamptz, v ORDER BY o) FROM (VALUES (1,'2025-01-01',1.0),(2,'2025-01-03',2.0),(3,'2025-01-02',4.0),(4,'2025-01-05',4.0)) r(o,t,v))"
    stv = tv.replace("ORDER BY o", "ORDER BY t")
    errs = [f"SELECT lttb({tv}, 3)::text", f"SELECT ({tv} -> toolkit_experimental.lttb(3))::text", f"SELECT lttb({stv}, 1)::text",
            f"SELECT lttb(t::timestamptz, v, k)::text FROM (VALUES ('2025-01-01',1.0,2)) r(t,v,k)", f"SELECT lttb(t::timestamptz, v, k)::text FROM (VALUES ('2025-01-01',1.0,-1)) r(t,v,k)",
            f"SELECT toolkit_experimental.gp_lttb(t::timestamptz, v, k)::text FROM (VALUES ('2025-01-01',1.0,0)) r(t,v,k)"]

    def work_err(conn, part, out):
        for q in part:
            g = conn.q(f"SELECT mctry({lit(q)})")[0][0]
            out.trace(q, state=q)
            if not (g or "").startswith("ERR"):
                out.violation(q, "an error", g)
    chk.explore("refused inputs", errs, work_err)


if __name__ == "__main__":
    main(run_)
