"""C08: interpolated_average / interpolated_integral of time_weight."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, arr, ts, close, pf
from pg import PgError
import tw
from c06 import T, AGG, SEC


def run_(chk):
    start, dur = 100 * SEC, 60 * SEC
    end = start + dur
    V = [-4.0, 0.0, 10.0]
    prevs = [None] + [tuple(zip(t, v)) for t in ((70 * SEC,), (start,), (10 * SEC, 99 * SEC), (40 * SEC, start)) for v in itertools.product(V, repeat=len(t))]
    nexts = [None] + [tuple(zip(t, v)) for t in ((end,), (end + 20 * SEC,), (end + SEC, end + 70 * SEC)) for v in itertools.product(V, repeat=len(t))]
    curs = []
    for t in ((start,), (start + 10 * SEC,), (start, start + 30 * SEC), (start + SEC, end - 1), (start + 15 * SEC, start + 20 * SEC, start + 50 * SEC)):
        for v in itertools.product([-1.0, 0.0, 8.0], repeat=len(t)):
            curs.append(tuple(zip(t, v)))
    cases = [(p, c, n, m) for p in prevs for c in curs for n in nexts for m in (("linear", True), ("locf", False))]

    def work(conn, part, out):
        A = lambda p, m: "NULL::" + T if p is None else f"mcrun(NULL::{T}, '{AGG}', '[*', {arr([[m, ts(t), v] for t, v in p])})"
        vals = ",".join(f"({i},{A(c, m[0])},{A(p, m[0])},{A(n, m[0])})" for i, (p, c, n, m) in enumerate(part))
        s, d = f"'{ts(start)}'::timestamptz", "'60 seconds'::interval"
        cols = [f"interpolated_average(c,{s},{d},p,n)", f"c->interpolated_average({s},{d},p,n)",
                f"interpolated_integral(c,{s},{d},p,n)", f"c->interpolated_integral({s},{d},p,n)",
                f"interpolated_integral(c,{s},{d},p,n,'ms')", f"c->interpolated_integral({s},{d},p,n,'ms')",
                f"interpolated_integral(c,{s},{d},p,n,'hour')", f"c->interpolated_integral({s},{d},p,n,'hour')"]
        for r in conn.q(f"SELECT i,{','.join(cols)} FROM (VALUES {vals}) v(i,c,p,n) ORDER BY i"):
            p, c, n, (m, linear) = part[int(r[0])]
            ps = tw.interpolated(c, p, n, start, end, linear)
            a, w = tw.area(ps, linear), ps[-1][0] - ps[0][0]
            avg = None if w == 0 else a / w
            e = [avg, avg] + [a / u for u in (10**6, 10**6, 10**3, 10**3, 3600 * 10**6, 3600 * 10**6)]
            case = {"method": m, "prev": p, "points": c, "next": n, "start": start, "end": end}
            out.trace(case, steps=4, state=(m, p, c, n))
            if not all(close(None if x is None else float(x), pf(g), 1e-9, 1e-9) for x, g in zip(e, r[1:])):
                out.violation(case, [None if x is None else float(x) for x in e], r[1:])
    chk.explore("prev x current x next", cases, work, chunk=200)

    # samples outside of the interval are refused
    bad = [(-1, SEC), (start + 10 * SEC, 5 * SEC), (start + 10 * SEC, 10 * SEC)]
    pts = [(start, 1.0), (start + 20 * SEC, 2.0)]

    def work2(conn, part, out):
        for (s0, d0), m, form in part:
            a = f"mcrun(NULL::{T}, '{AGG}', '[*', {arr([[m, ts(t), v] for t, v in pts])})"
            q = (f"SELECT interpolated_average({a}, '{ts(s0)}', '{d0} microseconds')" if form == 0 else
                 f"SELECT interpolated_integral({a}, '{ts(s0)}', '{d0} microseconds')")
            out.trace((s0, d0, m, form), state=(s0, d0, m, form))
            try:
                r = conn.q(q)
                out.violation(q, "ERROR: interval does not cover the samples", r)
            except PgError:
                pass
    chk.explore("interval must cover the samples", list(itertools.product(bad, ["linear", "locf"], [0, 1])), work2, chunk=2)


if __name__ == "__main__":
    main(run_)
