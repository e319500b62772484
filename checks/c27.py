"""C27: candlestick_agg / candlestick / rollup(candlestick) equal the reference on every input and schedule."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit
from aggrun import run, Err
import cs, partial
from cs import S

T, AGG, ROLL = "candlestick", "candlestick_agg(timestamptz,float8,float8)", "rollup(candlestick)"
AT = ["timestamptz", "float8", "float8"]
INF = math.inf


def row(v):
    return (ts(None if v[0] is None else v[0] * S), v[1], v[2])


def tick_judge(ordered):
    def j(vs, r):
        if isinstance(r, Err):
            return "no error", "", repr(r)
        return cs.judge([(b[0] * S,) + b[1:] for b in cs.bars(vs)], r, ordered)
    return j


def run_(chk):
    chk.start_pg()
    # sequences in one pass: every row of a small grid
    grid = [(t, p, v) for t in (0, 1, 2) for p in (1.0, 2.5, -3.0) for v in (2.0, 0.0, None)] + [(None, 1.0, 1.0), (1, None, 1.0), (1, INF, 1.0), (0, -INF, 2.0), (2, 1.0, -5.0), (0, 2.0, INF)]
    seqs = [s for n in (1, 2) for s in itertools.product(grid, repeat=n)]
    lean = [(0, 1.0, 2.0), (1, 1.0, 3.0), (1, 4.0, 1.0), (2, -3.0, 0.5), (0, 4.0, None), (None, 9.0, 1.0), (3, None, 7.0), (-1, 2.0, 0.0)]
    seqs += [s for n in range(3, chk.pick(5, 6)) for s in itertools.product(lean, repeat=n)]

    def work(conn, part, out):
        j = tick_judge(True)
        for s, r in zip(part, run(conn, T, AGG, cs.ALL, [("[*", [row(v) for v in s]) for s in part], AT)):
            out.trace({"rows": s}, steps=len(s), state=str(s))
            bad = j(s, r)
            if bad:
                out.violation({"ticks": s}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("all tick sequences", seqs, work)

    # all schedules; in any order of combination ties may resolve to any of the tied rows
    alphs = [[(0, 1.0, 2.0), (1, 3.0, 1.0), (2, -2.0, 5.0)], [(0, 1.0, 2.0), (0, 3.0, None), (1, 3.0, 1.0)], [(2, 1.0, 0.0), (1, None, 1.0), (2, 5.0, 0.5)]]
    partial.explore(chk, "any order", T, AGG, ROLL, cs.ALL, alphs, row, tick_judge(False), chk.pick(4, 5), argtypes=AT, n4=3)
    partial.explore(chk, "in order", T, AGG, ROLL, cs.ALL, alphs, row, tick_judge(True), chk.pick(4, 5), argtypes=AT, order_sensitive=True, n4=3, roll_max=4)

    # bars built by candlestick(): accessors, NULL arguments, and all rollups of them
    B = [(0, 2.0, 5.0, 1.0, 3.0, 10.0), (0, 4.0, 5.0, 2.0, 2.0, 0.0), (1, 3.0, 6.0, 1.0, 4.0, None), (2, 1.0, 4.5, -7.0, 4.0, 3.0), (1, 7.0, 8.0, 6.0, 7.5, -1.0)]

    def sql(b):
        return "candlestick(%s::timestamptz,%s,%s,%s,%s,%s)" % ((lit(ts(None if b[0] is None else b[0] * S)),) + tuple(lit(x) if x is not None else "NULL" for x in b[1:]))
    nulls = [tuple(None if m >> i & 1 else x for i, x in enumerate(b)) for b in B for m in range(64)]
    seqs = [(b,) for b in nulls] + [s for n in range(1, chk.pick(5, 6)) for s in itertools.product(B, repeat=n)] + \
        [p for p in itertools.permutations(B)] + [tuple(None if m >> i & 1 else b for i, b in enumerate(p)) for p in itertools.permutations(B, 4) for m in range(1, 16)]

    def work_b(conn, part, out):
        keep = [[None if b is None or None in b[:5] else b for b in s] for s in part]
        for s, k, r in zip(part, keep, run(conn, T, ROLL, cs.ALL, [("[*", [[None] if b is None else [txt] for b, txt in zip(s, texts(conn, s))]) for s in part])):
            out.trace({"rollup of bars": s}, steps=len(s), state=("bars", str(s)))
            bad = ("no error", "", repr(r)) if isinstance(r, Err) else cs.judge([(b[0] * S,) + b[1:] for b in k if b], r, True)
            if bad:
                out.violation({"rollup of": s}, f"{bad[0]}: {bad[1]}", bad[2])
    cache = {}

    def texts(conn, s):
        for b in s:
            if b is not None and b not in cache:
                cache[b] = conn.q(f"SELECT {sql(b)}::text")[0][0]
        return [cache.get(b) for b in s]
    chk.explore("candlestick() bars and their rollups", seqs, work_b)

    # window frames: finalization leaves the running state alone
    def work_w(conn, part, out):
        for s, frame in part:
            q = f"SELECT {','.join(cs.ALL)} FROM (SELECT o, candlestick_agg(t, p, v) OVER (ORDER BY o {frame}) a FROM (VALUES {','.join('(%d,%s::timestamptz,%s::float8,%s::float8)' % ((i,) + tuple(lit(x) for x in row(v))) for i, v in enumerate(s))}) x(o,t,p,v)) y ORDER BY o"
            rows = conn.q(q)
            out.trace({"ticks": s, "frame": frame}, steps=len(s), state=("w", s, frame))
            j = tick_judge(True)
            for i, r in enumerate(rows):
                fr = s[:i + 1] if "UNBOUNDED" in frame else s[max(0, i - 1):i + 1]
                bad = j(fr, r)
                if bad:
                    out.violation({"ticks": s, "frame": frame, "row": i}, f"{bad[0]}: {bad[1]}", bad[2])
    frames = ("ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW", "ROWS BETWEEN 1 PRECEDING AND CURRENT ROW")
    chk.explore("window frames", [(s, f) for n in (2, 3) for s in itertools.product(lean[:6], repeat=n) for f in frames], work_w, chunk=20)


if __name__ == "__main__":
    main(run_)
