"""C13: uddsketch / percentile_agg estimates stay within the advertised error of the exact quantiles."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, fl, close
from aggrun import run, Err
from udd import Sketch

T = "uddsketch"
INF, NAN = math.inf, math.nan
PS = [0.0, 0.05, 0.1, 0.2, 0.25, 0.34, 0.4, 0.5, 0.6, 0.67, 0.75, 0.8, 0.9, 0.99, 1.0]
PARR = "ARRAY[" + ",".join(map(str, PS)) + "]::float8[]"
PVAR = ",".join(map(str, PS))
ALPH = [
    ([1.05, 1.7, 3.3, 8.1, 40.7, 1000.5], (1, 2, 3, 5)),
    ([-30.2, -1.7, 0.0, 1.3, 4.4, 91.0], (3, 4, 5)),
    ([-3.1, -0.02, 0.0, 0.013, 0.4, 2.2, 71.0], (6, 5)),
    ([1.5, INF, -INF, 7.3, 0.0, 301.0], (4, 5)),
]


def pgarr(s):
    return [float(x) for x in s.strip("{}").split(",")]


def inside(est, x, err):
    if math.isinf(x):
        return est == x
    return abs(est - x) <= err * abs(x) * (1 + 1e-9) + 1e-300


def verify(vals, size, err, probes, r, exact_sum=True):
    """None or (what, expected, got)."""
    vals = [v for v in vals if v is not None]
    if isinstance(r, Err):
        return "no error", "", repr(r)
    if not vals:
        return None if all(x is None or set(x) <= set("{NUL,}") for x in r) else ("NULL for no values", None, repr(r))
    m = Sketch(vals, size, err)
    arrv, arrow, single, e, nv, mean, tot = r[:7]
    if not close(float(e), m.alpha, 1e-9, 0):
        return "error", m.alpha, e
    if float(nv) != m.n:
        return "num_vals", m.n, nv
    s = math.fsum(v for v in vals) if not any(math.isinf(v) for v in vals) else sum(vals)
    if not close(float(tot), s, 1e-9, 1e-9) or not close(float(mean), s / m.n, 1e-9, 1e-9):
        return "total, mean", (s, s / m.n), (tot, mean)
    if arrv != arrow or arrv != single:
        return "the forms of approx_percentile agree", arrv, (arrow, single)
    qs = pgarr(arrv)
    for p, q in zip(PS, qs):
        x = m.quantile(p)
        if not inside(q, x, m.alpha):
            return f"approx_percentile({p})", f"{x} within {m.alpha}", q
    if qs != sorted(qs):
        return "percentiles ascending", sorted(qs), qs
    prev = 0.0
    for v, g in zip(probes, r[7:]):
        g, g2 = g.split("|")
        lo, hi = m.rank_bounds(v)
        if g != g2 or not lo - 1e-12 <= float(g) <= hi + 1e-12:
            return f"approx_percentile_rank({v})", (lo, hi), (g, g2)
        if float(g) < prev:
            return "ranks ascending", prev, g
        prev = float(g)
    return None


def cols(probes):
    return ([f"approx_percentile_array({PARR}, a)", f"a -> approx_percentiles({PARR})",
             "array[" + ",".join(f"approx_percentile({p}, a)" for p in PS[:7]) + "," + ",".join(f"a -> approx_percentile({p})" for p in PS[7:]) + "]",
             "a -> error()", "num_vals(a)", "mean(a)", "total(a)"]
            + [f"approx_percentile_rank('{fl(v)}', a) || '|' || (a -> approx_percentile_rank('{fl(v)}'))" for v in probes])


def run_(chk):
    for err in chk.pick((0.1,), (0.1, 0.01)):
        for al, sizes in ALPH:
            probes = sorted({v for v in al} | {1.12, -0.77, 5.9, 2000.5})
            CO = cols(probes)
            depth = chk.pick(4, 5)
            cs = [(size, s) for size in sizes for n in range(0, depth + 1) for s in itertools.product(al + [None] if n < 3 else al, repeat=n)]

            def work(conn, part, out):
                res = run(conn, T, "uddsketch(int,float8,float8)", CO, [("[*", [(size, err, v) for v in s]) for size, s in part])
                for (size, s), r in zip(part, res):
                    case = {"size": size, "max_error": err, "values": s}
                    out.trace(case, steps=len(s) + 1, state=(size, err, tuple(sorted(map(str, s)))))
                    bad = verify(s, size, err, probes, r)
                    if bad:
                        out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
            chk.explore(f"sequences of {al} error {err}", cs, work)

    # percentile_agg: 200 buckets, 0.001
    def series():
        for n in chk.pick((1, 2, 150, 200, 201, 202, 500), (1, 2, 3, 10, 150, 199, 200, 201, 202, 260, 500, 1500)):
            for name, f in SER.items():
                for o in ("up", "down", "mix"):
                    yield n, name, o

    def order(xs, o):
        return xs if o == "up" else xs[::-1] if o == "down" else xs[::2] + xs[1::2][::-1]

    probes = [-50.01, -1.7, 0.0, 0.013, 1.3, 17.3, 1234.5, 5e5]
    CO = cols(probes)
    AG = (("percentile_agg(float8)", 200, 0.001), ("uddsketch(int,float8,float8)", 20, 0.05), ("uddsketch(int,float8,float8)", 1200, 0.0001))

    def work2(conn, part, out):
        for agg, size, err in AG:
            items = [("[*", [(v,) if agg[0] == "p" else (size, err, v) for v in order(SER[nm](n), o)]) for n, nm, o in part]
            for c, it, r in zip(part, items, run(conn, T, agg, CO, items)):
                out.trace({"agg": agg, "series": c}, steps=c[0], state=(agg, c))
                bad = verify([x[-1] for x in it[1]], size, err, probes, r)
                if bad:
                    out.violation({"agg": agg, "size": size, "max_error": err, "series": c}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("long series", list(series()), work2, chunk=4)

    # sketches with very many buckets (compacted in another way)
    def work4(conn, part, out):
        for size, n, nm, o in part:
            vs = order(SER[nm](n), o)
            r = run(conn, T, "uddsketch(int,float8,float8)", CO, [("[*", [(size, 1e-5, v) for v in vs])])[0]
            out.trace({"size": size, "series": (n, nm, o)}, steps=n, state=(size, n, nm, o))
            bad = verify(vs, size, 1e-5, probes, r)
            if bad:
                out.violation({"size": size, "series": (n, nm, o)}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("many buckets", [(size, n, nm, o) for size, n in ((199, 240), (200, 240), (201, 240), (999, 1100), (1000, 1100), (1001, 1100), (4999, 5100), (5000, 5100), (5001, 5100)) for nm in ("signed", "heavy") for o in chk.pick(("mix",), ("up", "down", "mix"))], work4, chunk=1)

    # arguments
    def work3(conn, part, out):
        for q, ok in part:
            out.trace(q, state=q)
            r = conn.try_q(q)
            if ok != (not isinstance(r, Exception)):
                out.violation(q, "ok" if ok else "error", repr(r))
    qs = [(f"SELECT approx_percentile({p}, percentile_agg(v)) FROM (VALUES (1.0::float8),(2)) v(v)", ok)
          for p, ok in (("0", 1), ("1", 1), ("-0.0001", 0), ("1.0001", 0), ("'NaN'", 0), ("'Infinity'", 0), ("0.5", 1))]
    qs += [(f"SELECT approx_percentile_array(array[0.5, {p}], percentile_agg(v)) FROM (VALUES (1.0::float8),(2)) v(v)", ok)
           for p, ok in (("0", 1), ("1", 1), ("-0.0001", 0), ("1.0001", 0), ("'NaN'", 0), ("'Infinity'", 0), ("0.5", 1))]
    qs += [(f"SELECT uddsketch(20, {e}, v) FROM (VALUES (1.0::float8),(2)) v(v)", ok)
           for e, ok in (("0.1", 1), ("0", 0), ("1", 0), ("-0.5", 0), ("2", 0), ("'NaN'", 0), ("0.99", 1), ("1e-9", 1))]
    qs += [("SELECT uddsketch(0, 0.1, v) FROM (VALUES (1.0::float8),(2)) v(v)", 0)]
    chk.explore("arguments", qs, work3)


SER = {
    "linear": lambda n: [i + 0.37 for i in range(n)],
    "geometric": lambda n: [1.0123 * 1.013 ** i for i in range(n)],
    "shrinking": lambda n: [0.37 * 0.991 ** i for i in range(n)],
    "signed": lambda n: [(i - n // 2) * 1.37 for i in range(n)],
    "heavy": lambda n: [3.3 if i % 3 else 0.0 if i % 2 else 1.37 * (i + 1) for i in range(n)],
}

if __name__ == "__main__":
    main(run_)
