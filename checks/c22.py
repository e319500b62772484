"""C22: state_agg / compact_state_agg accessors describe exactly the intervals between the time-ordered states."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit
from aggrun import run, Err
from state import Cols, build, Bad, S, te

STR = ["a", "ab", "b", ""]
INT = [0, -1, 1 << 62, 7]


def run_(chk):
    chk.start_pg()
    TIMES = (0, 10, 25)
    RANGES = ((-5, 3), (-5, 20), (0, 25), (5, 10), (5, 0), (10, None), (24, 100), (25, 0), (30, 5), (-3, None))
    POINTS = (-1, 0, 5, 10, 24, 25, 26)

    def explore(name, kind, compact, cases, cols, chunk):
        T = te + "compactstateagg" if compact else "stateagg"
        agg = (te + "compact_state_agg" if compact else "state_agg") + f"(timestamptz,{'text' if kind == 'text' else 'bigint'})"

        def work(conn, part, out):
            res = run(conn, T, agg, cols.sql, [("[*", [(ts(t * S), s) for t, s in c]) for c in part], ["timestamptz", "text" if kind == "text" else "bigint"])
            for c, r in zip(part, res):
                out.trace({"agg": agg, "rows": c}, steps=len(c), state=(agg, c))
                try:
                    m = build(c)
                except Bad:
                    if not isinstance(r, Err):
                        out.violation({"agg": agg, "rows": c}, "error: two states at one time", r)
                    continue
                bad = ("no error", "", repr(r)) if isinstance(r, Err) else cols.null_ok(r) if m is None else cols.judge(m, r)
                if bad:
                    out.violation({"agg": agg, "rows": c}, f"{bad[0]}: {bad[1]}", bad[2])
        chk.explore(name, cases, work, chunk=chunk)

    for kind, al in (("text", STR), ("int", INT)):
        syms = al[:3] + (["zz"] if kind == "text" else [1])
        full = Cols(kind, False, syms, RANGES, POINTS)
        pts = [(t, s) for t in TIMES for s in al[:3] + [None]]
        explore(f"{kind}: all sequences of up to 3 rows", kind, False, [c for n in (1, 2, 3) for c in itertools.product(pts, repeat=n)] , full, 40)
        comp = Cols(kind, True, syms)
        explore(f"compact {kind}: all sequences of up to 3 rows", kind, True, [c for n in (1, 2, 3) for c in itertools.product(pts, repeat=n)], comp, 200)
        # longer time-ordered series and all permutations
        lean = Cols(kind, False, al, ((-1, 13), (7, 9)), (-1, 3, 8, 12, 40), full=False)
        n = chk.pick(5, 6)
        cases = [tuple((t, s) for t, s in zip((0, 2, 5, 6, 13, 20, 31), w)) for k in range(2, n + 2) for w in itertools.product(al[:4] if k < n else al[:3] if k == n else al[:2], repeat=k)]
        explore(f"{kind}: longer series", kind, False, cases, lean, 100)
        explore(f"compact {kind}: longer series", kind, True, cases, comp, 300)
        perm = [p for w in (al[:2] * 2 + [al[0]], [al[0], al[0], al[1], al[2], al[0]], al + [al[0]]) for p in itertools.permutations(list(zip((0, 3, 4, 11, 17), w)))]
        explore(f"{kind}: all arrival orders", kind, False, perm, lean, 100)
    # state names that contain one another, quotes, multi-byte characters, and long ones
    ST = ["", "a", "aa", "aaa", "ba", "ab", "é", "\u00e9\u0301", "'", '"', "\\", "a\nb", "[", "null", "日本", "日", "\U0001F600", "a\U0001F600", "x" * 3000]
    cases = [tuple(zip((0, 4, 9), w)) for w in itertools.product(ST, repeat=3) if len(set(w)) > 1]
    explore("state names", "text", False, cases, Cols("text", False, ["", "a", "aa", "b", "é", "日", "'"], ((2, 5),), (4,), full=True), 100)
    # bigger batches out of order, crossing the sort's small-slice threshold, with duplicates
    cases = []
    for n in (21, 33, 50, 120):
        for k in (2, 3, 5, 7):
            for mul in (1, 7, 13):
                cases.append(tuple(((i * mul) % n, STR[((i * mul) % n) // k % 3]) for i in range(n)) + tuple((i, STR[i // k % 3]) for i in range(0, n, 3)))
    explore("larger batches with duplicates", "text", False, cases, Cols("text", False, STR, ((3, 12),), (0, 9, 20), full=False), 6)

    def work2(conn, part, out):
        for q, want in part:
            r = conn.try_q(q)
            out.trace(q, state=q)
            if isinstance(r, Exception) != (want == "error") or want != "error" and r[0][0] != want:
                out.violation(q, want, repr(r)[:300])
    one = "state_agg(t::timestamptz, s) FROM (VALUES ('2000-01-01', 'a'), ('2000-01-02', 'b'), ('2000-03-02', 'c')) v(t, s)"
    onei = "state_agg(t::timestamptz, s) FROM (VALUES ('2000-01-01', 1::bigint), ('2000-01-02', 2)) v(t, s)"
    qs = []
    for fn, okk in (("duration_in(a, 'a')", 0), ("duration_in(a, 1)", 1), ("into_values(a)", 0), ("into_int_values(a)", 1), ("state_timeline(a)", 0), ("state_int_timeline(a)", 1),
                    ("state_at(a, '2000-01-01')", 0), ("state_at_int(a, '2000-01-01')", 1), ("state_periods(a, 'a')", 0), ("state_periods(a, 1)", 1), ("duration_in(a, 'a', '2000-01-01', '1 day')", 0), ("duration_in(a, 1, '2000-01-01', '1 day')", 1)):
        for i, src in ((0, one), (1, onei)):
            if i != okk:
                qs.append((f"SELECT {fn} FROM (SELECT {src.replace(' FROM', ' a FROM', 1)}) x", "error"))
    x = f"FROM (SELECT {one.replace(' FROM', ' a FROM', 1)}) x"
    for iv, want in (("1 month", 30), ("2 months", 59), ("1 day", 0), ("-1 day", "error"), ("0", 0), ("2 days", 1), ("1 month 2 days", 32)):
        qs.append((f"SELECT (extract(epoch from duration_in(a, 'b', '2000-01-01', '{iv}'))/86400)::int::text {x}", str(want)))
        qs.append((f"SELECT (extract(epoch from a -> duration_in('b', '2000-01-01'::timestamptz, '{iv}'::interval))/86400)::int::text {x}", str(want)))
    qs += [(f"SELECT duration_in(NULL::stateagg, 'a')::text", "00:00:00"), ("SELECT (state_at(NULL::stateagg, now()) IS NULL)::text", "true"), ("SELECT count(*)::text FROM state_timeline(NULL::stateagg)", "0")]
    chk.explore("kinds of states, calendar intervals", qs, work2, chunk=10)


if __name__ == "__main__":
    main(run_)
