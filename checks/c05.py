"""C05: interpolated_delta / interpolated_rate of counter_agg and gauge_agg."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, arr
from metric_check import *


def lerp(a, b, t):
    return F(a[1]) + (F(b[1]) - F(a[1])) * F(t - a[0], b[0] - a[0])


def model(k, prev, cur, nxt, start, end):
    pts = [(t, F(v)) for t, v in cur]
    if prev and cur[0][0] > start:
        a, b = prev[-1], cur[0]
        if k.counter and a[1] > b[1]:
            a = (a[0], 0)
        pts.insert(0, (start, lerp(a, b, start)))
    if nxt:
        a, b = cur[-1], nxt[0]
        if k.counter and a[1] > b[1]:
            a = (a[0], 0)
        pts.append((end, lerp(a, b, end)))
    adj, off = [pts[0][1]], F(0)
    for (ta, x), (tb, y) in zip(pts, pts[1:]):
        if k.counter and y < x:
            off += x
        adj.append(y + off)
    d = adj[-1] - adj[0]
    dt = F(pts[-1][0] - pts[0][0], SEC)
    return d, (None if len(pts) == 1 else d / dt)


def run_kind(chk, k):
    start, dur = 100 * SEC, 60 * SEC
    end = start + dur
    prevs = [None] + [tuple(zip(t, v)) for t in ((70 * SEC,), (start,), (10 * SEC, 99 * SEC), (40 * SEC, start)) for v in itertools.product([0.0, 4.0, 8.0, 10.0], repeat=len(t))]
    nexts = [None] + [tuple(zip(t, v)) for t in ((end,), (end + 20 * SEC,), (end + SEC, end + 70 * SEC)) for v in itertools.product([0.0, 4.0, 8.0, 10.0], repeat=len(t))]
    curs = []
    for t in ((start,), (start + 10 * SEC,), (start, start + 30 * SEC), (start + SEC, end - 1), (start + 15 * SEC, start + 20 * SEC, start + 50 * SEC)):
        for v in itertools.product([0.0, 4.0, 8.0], repeat=len(t)):
            curs.append(tuple(zip(t, v)))
    cases = [(p, c, n) for p in prevs for c in curs for n in nexts]
    A = lambda p: "NULL::" + k.type if p is None else f"mcrun(NULL::{k.type}, '{k.agg}', '[*', {arr(rows(p))})"

    def work(conn, part, out):
        vals = ",".join(f"({i},{A(c)},{A(p)},{A(n)})" for i, (p, c, n) in enumerate(part))
        s, d = f"'{ts(start)}'::timestamptz", "'60 seconds'::interval"
        cols = [f"interpolated_delta(c,{s},{d},p,n)", f"interpolated_rate(c,{s},{d},p,n)"]
        if k.counter:
            cols += [f"c->interpolated_delta({s},{d},p,n)", f"c->interpolated_rate({s},{d},p,n)"]
        for r in conn.q(f"SELECT i,{','.join(cols)} FROM (VALUES {vals}) v(i,c,p,n) ORDER BY i"):
            p, c, n = part[int(r[0])]
            ed, er = model(k, p, c, n, start, end)
            e = [ed, er] * (len(cols) // 2)
            case = {"agg": k.agg, "prev": p, "points": c, "next": n, "start": start, "end": end}
            out.trace(case, steps=4, state=(k.name, p, c, n))
            if not all(close(pf(g), None if x is None else float(x), 1e-9, 1e-9) for g, x in zip(r[1:], e)):
                out.violation(case, [str(ed), str(er)], r[1:])
    chk.explore(k.name + ": prev x current x next", cases, work, chunk=200)


def run_(chk):
    run_kind(chk, Kind("counter"))
    run_kind(chk, Kind("gauge"))


if __name__ == "__main__":
    main(run_)
