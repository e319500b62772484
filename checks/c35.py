"""C35: asap_smooth is the moving average with the window that ASAP chooses."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, arr, ts, close, fl
import tv, asap


def tm(i):
    return (i * 7 + i % 3) * 1000000 + i * i


def judge(pts, res, got):
    """pts: time-sorted; None if the result is right."""
    if not pts:
        return None if got is None else ("NULL", got)
    if isinstance(got, Exception):
        return "no error", repr(got)[:300]
    if got is None:
        return "a series", None
    g = tv.parse(got)
    if isinstance(g, str):
        return "a timevector", g
    a, pre, ws, *rest = asap.allowed([v for _, v in pts], res)
    w = len(a) - len(g.pts) + 1
    if w not in ws:
        return f"smoothing window in {sorted(ws)[:20]} over {len(a)} points, so {len(a) + 1 - min(ws)} points or so", f"{len(g.pts)} points (window {w})"
    if g.flags != tv.SORTED:
        return "flags: sorted, no nulls", g.flags
    want = asap.sma(a, w) if w > 1 else a
    sc = max(abs(v) for _, v in pts)
    for i, (x, (t, v)) in enumerate(zip(want, g.pts)):
        wt = pts[min((i + w // 2) * pre, len(pts) - 1)][0]
        if t != wt:
            return f"point {i} (windows {pre}, {w}) at {ts(wt)}", ts(t)
        if v is None or not close(x, v, 1e-9, 1e-9 * sc):
            return f"point {i} (windows {pre}, {w}): {x!r}", v
    if rest and rest[0]:                                          # rounding decides the search: at least the objective holds
        k0, r0 = rest[1].metrics(1)
        k, r = rest[1].metrics(w)
        if w > 1 and (r > r0 * (1 + 1e-9) or k is not None and k0 is not None and k < k0 * (1 - 1e-9)):
            return f"a window that is not rougher ({r0}) and keeps the kurtosis ({k0})", f"window {w}: {r}, {k}"
    return None


def rowsql(rows):
    return f"SELECT x[1]::timestamptz t, x[2]::float8 v, o FROM (SELECT ARRAY[t, v] x, o FROM unnest({tarr([ts(t) for t, _ in rows])}, {tarr([None if v is None else fl(v) for _, v in rows])}) WITH ORDINALITY y(t, v, o)) z"


def tarr(l):
    return "ARRAY[" + ",".join("NULL" if x is None else f"'{x}'" for x in l) + "]::text[]"


def run(chk):
    chk.start_pg()

    def work(conn, part, out):
        for name, rows, res, forms in part:
            pts = sorted(((t, v) for t, v in rows if t is not None and v is not None), key=lambda p: p[0])
            for form in forms:
                if form == "tv":
                    q = f"SELECT asap_smooth(timevector(t, v ORDER BY o), {res})::text FROM ({rowsql(rows)}) x WHERE v IS NOT NULL AND t IS NOT NULL"
                else:
                    q = f"SELECT asap_smooth(t, v, {res} ORDER BY o)::text FROM ({rowsql(rows)}) x"
                got = conn.try_q(q)
                case = {"series": name, "resolution": res, "rows": rows if len(rows) < 30 else f"{len(rows)} rows", "form": form}
                out.trace(case, steps=len(rows), state=(name, str(rows)[:4000], res))
                if res <= 0:
                    if not isinstance(got, Exception) and pts:
                        out.violation(case, "an error (resolution)", got[0])
                    continue
                bad = judge(pts, res, got if isinstance(got, Exception) else got[0][0])
                if bad:
                    out.violation({**case, "sql": q if len(q) < 3000 else "..."}, bad[0], bad[1])

    # short series: every value, NULLs, every arrival order, every resolution
    A = (0.0, 1.0, 4.0)
    short = []
    for n in range(0, chk.pick(5, 6)):
        for vs in itertools.product(A + (None,) if n <= 3 else A, repeat=n):
            for perm in itertools.permutations(range(n)) if n <= 3 or n == 4 and chk.thorough else [tuple(range(n)), tuple(reversed(range(n)))] if n > 1 else [tuple(range(n))]:
                for res in (1, 2, 3, 10):
                    short.append(("short", [(tm(i), vs[i]) for i in perm], res, ("agg", "tv")))
    for res in (0, -1, -2147483648, 2147483647):
        short.append(("short", [(tm(i), float(i)) for i in range(3)], res, ("agg", "tv")))
        short.append(("none", [], res, ("agg",)))
        short.append(("time null", [(None, 1.0), (tm(1), 2.0)], res, ("agg",)))
    chk.explore("short series", short, work, chunk=40)

    # periodic series of all patterns, with outliers and trends
    per = []
    for n in chk.pick((20, 40, 61, 100), (20, 23, 30, 40, 61, 64, 100, 127, 128, 130)):
        for p in range(1, chk.pick(5, 6)):
            for word in itertools.product((0.0, 1.0, 3.0), repeat=p):
                if p > 1 and len(set(word)) == 1:
                    continue
                for a, b in ((0, 0), (0, 1), (n // 2, n // 2 + 1), (n // 3, n // 3 + n // 10 + 1), (n // 2, n // 2 + n // 5), (n - n // 7, n), (n // 2, n)):
                    for tr in (0.0, 0.125):
                        if (a, b) in ((0, 1), (n // 2, n // 2 + 1)) and tr:
                            continue
                        d = [word[i % p] + tr * i + (20.0 if a <= i < b else 0.0) for i in range(n)]
                        per.append((f"{word} x {n}, plateau at {a}-{b}, trend {tr}", [(tm(i), v) for i, v in enumerate(d)], n, ("agg",)))
    chk.explore("periodic series", per, work, chunk=40)

    # long waves with noise: period x noise x length x resolution x arrival order
    lng = []
    for n in chk.pick((120, 150, 300), (120, 150, 300, 511, 512, 700, 1000)):
        for p in chk.pick((2, 5, 7, 12, 17), range(2, 30)):
            for noise in (0.0, 0.3, 2.0):
                for o in (None, (n // 3, n // 3 + 1), (n // 3, n // 2)):
                    x, d = 12345, []
                    for i in range(n):
                        x = (x * 1103515245 + 12345) % 2**31
                        d.append(5 * math.sin(2 * math.pi * i / p) + noise * (x / 2**31) + (30.0 if o and o[0] <= i < o[1] else 0.0))
                    pts = [(tm(i), v) for i, v in enumerate(d)]
                    for res in sorted({n, 100, 60, 40, n // 2, n // 2 - 1, n // 3 + 1, 25, 10, 1}):
                        lng.append((f"wave of period {p}, noise {noise}, plateau {o}", pts, res, ("agg",)))
                    nm = f"wave of period {p}, noise {noise}, plateau {o}"
                    h = n // 2
                    for nm2, q in (("reversed", pts[::-1]), ("rotated", pts[h:] + pts[:h]), ("interleaved", pts[::2] + pts[1::2]), ("one late", pts[1:] + pts[:1])):
                        lng.append((nm + ", " + nm2, q, n, ("agg", "tv")))
                        lng.append((nm + ", " + nm2, q, 40, ("agg", "tv")))
    chk.explore("waves", lng, work, chunk=20)

    # special values do not hang or crash
    def special(conn, part, out):
        for n, v, o, res in part:
            q = f"SELECT asap_smooth(to_timestamp(i), CASE WHEN i = {o} THEN '{v}' ELSE (i % 5)::text END::float8, {res})::text FROM generate_series(1, {n}) i"
            got = conn.try_q(q)
            out.trace(q, steps=n, state=q)
            g = got if isinstance(got, Exception) else tv.parse(got[0][0])
            if isinstance(g, (Exception, str)) or not g.pts or len(g.pts) > max(n if n <= 2 * res else n, 1):
                out.violation(q, "a series", repr(got)[:300])
    chk.explore("special values", [(n, v, o, r) for n in (1, 2, 5, 19, 20, 50, 200) for v in ("NaN", "Infinity", "-Infinity", "1e308", "-0", "5e-324") for o in (1, n) for r in (1, 7, n)], special)


if __name__ == "__main__":
    main(run)
