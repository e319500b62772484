"""C25: heartbeat_agg's live and dead ranges are exactly what the heartbeats cover; trim_to restricts them."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit
from aggrun import run, Err
from hb import Agg, Cols, S

T = "heartbeatagg"
AGG = "heartbeat_agg(timestamptz,timestamptz,interval,interval)"
AT = ["timestamptz", "timestamptz", "interval", "interval"]


def row(h, st, ln, L):
    return (ts(h * S), ts(st * S), f"{ln} s", f"{L} s")


def run_(chk):
    chk.start_pg()
    ST, LN = -6, 12
    cols = Cols((-7, -6, -3, -1, 0, 1, 5, 6, 7))
    lean = Cols((-4, 3), full=False)

    def explore(name, cases, cols, chunk):
        def work(conn, part, out):
            res = run(conn, T, AGG, cols.sql, [("[*", [row(h, st, ln, L) for h in hs]) for st, ln, L, hs in part], AT)
            for (st, ln, L, hs), r in zip(part, res):
                case = {"start": st, "duration": ln, "liveness": L, "heartbeats": hs}
                out.trace(case, steps=len(hs), state=str(case))
                if any(not st <= h < st + ln for h in hs) or ln <= L:
                    if not isinstance(r, Err):
                        out.violation(case, "error: heartbeats outside of the aggregate", r)
                    continue
                bad = ("no error", "", repr(r)) if isinstance(r, Err) else cols.judge(Agg.of(st, ln, L, hs), r)
                if bad:
                    out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
        chk.explore(name, cases, work, chunk=chunk)
    grid = range(ST, ST + LN)
    subsets = [c for n in range(1, 13) for c in itertools.combinations(grid, n)]
    explore("all sets of heartbeats", [(ST, LN, L, hs) for L in (1, 2, 3, 5, 11) for hs in subsets], lean, 300)
    explore("all sequences", [(ST, LN, L, hs) for n in (1, 2, 3) for hs in itertools.product((-7, -6, -4, -3, 0, 1, 5, 6), repeat=n) for L in (1, 3, 6, 12)], cols, 100)
    explore("all orders", [(ST, LN, L, p) for hs in ((-6, -4, -1, 2, 5), (-5, -5, 0, 1, 5)) for p in set(itertools.permutations(hs)) for L in (1, 2, 3)], lean, 100)

    # more heartbeats than are absorbed at once, in several orders
    def orders(n):
        return {"ascending": list(range(n)), "descending": list(range(n))[::-1], "strided": [i * 7 % n for i in range(n)] if n % 7 else [i * 11 % n for i in range(n)],
                "halves": [x for i in range(n // 2) for x in (i, n // 2 + i)], "evens first": list(range(0, n, 2)) + list(range(1, n, 2)), "last third first": list(range(2 * n // 3, n)) + list(range(2 * n // 3)),
                "blocks": [x for b in range(7) for x in range(b, n, 7)]}
    big = []
    for n in (999, 1000, 1001, 2003, chk.pick(3500, 9000)):
        for o in orders(n):
            for step, L in ((3, 1), (3, 3), (3, 4), (2, 7)):
                for gap in (0, 50):
                    big.append((n, o, step, L, gap))

    def work_big(conn, part, out):
        for n, o, step, L, gap in part:
            hs = [i * step + (i // 9 * gap if i % 3 else i // 9 * gap + 1) for i in orders(n)[o]]
            ln = max(hs) + 5 + L
            case = {"n": n, "order": o, "step": step, "liveness": L, "gap": gap}
            q = f"SELECT {','.join(lean.sql)} FROM (SELECT heartbeat_agg('2000-01-01'::timestamptz + h * interval '1 s', '2000-01-01', '{ln} s', '{L} s' ORDER BY o) a FROM unnest('{{{','.join(map(str, hs))}}}'::int[]) WITH ORDINALITY x(h, o)) y"
            q = q.replace("live_at", "live_at")
            r = conn.q(q)[0]
            out.trace(case, steps=n, state=str(case))
            m = Agg.of(0, ln, L, hs)
            bad = lean.judge(m, r)
            if bad:
                out.violation(case, f"{bad[0]}: {str(bad[1])[:500]}", str(bad[2])[:500])
    chk.explore("many heartbeats", big, work_big, chunk=6)

    # trim_to, plain and through the operator
    cases = [(L, hs, lo, d) for hs in [c for n in (1, 2, 3, 4) for c in itertools.combinations((-6, -5, -2, 0, 3, 5), n)] for L in (1, 3) for lo in (None, -7, -6, -4, -2, 0, 2, 5, 6, 7) for d in (None, 0, 1, 2, 4, 8, 12, 13, -1)]

    def work_trim(conn, part, out):
        series = sorted({(L, hs) for L, hs, _, _ in part})
        txt = {s: r[0] for s, r in zip(series, run(conn, T, AGG, ["a::text"], [("[*", [row(h, ST, LN, s[0]) for h in s[1]]) for s in series], AT))}
        todo, exp = [], []
        for L, hs, lo, d in part:
            m = Agg.of(ST, LN, L, hs)
            a, b = ST if lo is None else lo, (ST if lo is None else lo) + d if d is not None else ST + LN
            if a == b:
                continue  # nothing is asked about a range without length
            w = "ERR" if a < ST or b > ST + LN or a > b else Agg(a, b, L, m.live)
            lt, dt = "NULL" if lo is None else lit(ts(lo * S)), "NULL" if d is None else lit(f"{d} s")
            todo.append(f"SELECT trim_to({lit(txt[L, hs])}::heartbeatagg, {lt}::timestamptz, {dt}::interval)::text")
            exp.append(((L, hs, lo, d, "trim_to"), w))
            if lo is not None:
                todo.append(f"SELECT ({lit(txt[L, hs])}::heartbeatagg -> trim_to({lt}::timestamptz, {dt}::interval))::text")
                exp.append(((L, hs, lo, d, "-> trim_to"), w))
        got = conn.q(f"SELECT t.r, x.* FROM (SELECT o, mctry(q) r FROM unnest(ARRAY[{','.join(map(lit, todo))}]) WITH ORDINALITY u(q, o)) t LEFT JOIN LATERAL (SELECT {','.join(lean.sql)} FROM (SELECT (CASE WHEN left(r, 3) <> 'ERR' THEN r END)::heartbeatagg a OFFSET 0) z) x ON true ORDER BY o")
        for (c, w), r in zip(exp, got):
            out.trace(c, state=str(c))
            if w == "ERR":
                bad = None if r[0].startswith("ERR") else ("outside of the aggregate", "error", r)
            else:
                bad = ("no error", "", r[0]) if r[0].startswith("ERR") else lean.judge(w, r[1:])
            if bad:
                out.violation({"liveness": c[0], "heartbeats": c[1], "trim to": c[2:4], "form": c[4]}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("trim_to", cases, work_trim, chunk=60)


if __name__ == "__main__":
    main(run_)
