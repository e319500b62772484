"""C10: two-variable stats_agg equals the exact regression statistics of its input."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from aggrun import run, Err
import st
from st import ACC2
from c09 import inf_tag

T = "statssummary2d"
COLS = [a for _, a in ACC2]
INF, NAN = math.inf, math.nan


def cases(chk):
    V = [-1.0, 0.0, 2.5]
    P = list(itertools.product(V, V))
    for n in range(0, 4):
        yield from itertools.product(P, repeat=n)
    for n in range(4, chk.pick(6, 7)):
        yield from itertools.product([(y, x) for y in (0.0, 3.0) for x in (1.0, 2.0)] if n < 6 else [(0.0, 1.0), (3.0, 2.0), (3.0, 1.0)], repeat=n)
    for n in chk.pick((130, 1100, 4200), (130, 260, 520, 1100, 2100, 4200, 8300)):
        yield tuple((float(i * 37 % 101) - 50, float(i % 13)) for i in range(n))
        yield tuple((None if i % 9 == 2 else float(i % 7), float(i // 20)) for i in range(n))
    N = [(None, None), (None, 4.0), (1.0, None), (2.0, 1.0), (5.0, 3.0)]
    for n in range(1, 5):
        yield from itertools.product(N, repeat=n)
    S = [(INF, 1.0), (1.0, -INF), (NAN, 2.0), (0.0, NAN), (2.0, 1.0), (5.0, 3.0)]
    for n in range(1, 4):
        yield from itertools.product(S, repeat=n)


def run_(chk):
    cs = list(cases(chk))
    for agg in ("stats_agg(float8,float8)", "stats_agg_no_inv(float8,float8)", "toolkit_experimental.stats_agg_tf(float8,float8)"):
        tf = "tf" in agg

        def work(conn, part, out):
            res = run(conn, T, agg, COLS, [("[*", c) for c in part])
            for c, r in zip(part, res):
                out.trace({"agg": agg, "rows (y,x)": c}, steps=len(c) + 1, state=(agg, tuple(sorted(map(str, c)))))
                if not c:
                    bad = None if all(x is None for x in r) else ("empty input", None, repr(r))
                else:
                    e = st.expect2(c)
                    bad = ("no error", e, repr(r)) if isinstance(r, Err) else st.diff(ACC2, e, r, 1e-9, 1e-9)
                if bad:
                    out.violation({"agg": agg, "rows (y,x)": c}, f"{bad[0]} = {bad[1]}", bad[2], tag=inf_tag(tf, bad))
        chk.explore(agg, cs, work)

    def work2(conn, part, out):
        # against PostgreSQL's own regression aggregates
        for c in part:
            vals = ",".join("(%s,%s)" % tuple("NULL::float8" if v is None else f"'{v}'::float8" for v in p) for p in c)
            q = ("SELECT slope(a), regr_slope, intercept(a), regr_intercept, covariance(a,'pop'), covar_pop, covariance(a), covar_samp,"
                 " average_x(a), regr_avgx, average_y(a), regr_avgy, variance_y(a,'pop'), var_pop, num_vals(a), regr_count, corr(a), corr, determination_coeff(a), regr_r2, sum_y(a), sy FROM"
                 " (SELECT stats_agg(y,x) a, regr_slope(y,x), regr_intercept(y,x), covar_pop(y,x), covar_samp(y,x), regr_avgx(y,x), regr_avgy(y,x),"
                 f" var_pop(y) FILTER (WHERE x IS NOT NULL), regr_count(y,x), corr(y,x), regr_r2(y,x), sum(y) FILTER (WHERE x IS NOT NULL) sy FROM (VALUES {vals}) v(y,x)) s")
            r = conn.q(q)[0]
            out.trace({"vs postgres": c}, steps=len(c), state=("pg", c))
            for i in range(0, len(r), 2):
                e = None if r[i + 1] is None else float(r[i + 1])
                if not st.same(e, r[i]):
                    out.violation({"rows (y,x)": c, "column": i}, r[i + 1], r[i])
    chk.explore("against PostgreSQL", [c for c in cs if 1 <= len(c) <= 3][:: chk.pick(3, 1)], work2)

    HUGE = [(1e308, 1.0), (1.0, 1e308), (-1e308, 1.0), (1.0, 2.0), (1.0, -1e308), (INF, 1.0)]

    def work3(conn, part, out):
        res = run(conn, T, "stats_agg(float8,float8)", COLS, [("[*", c) for c in part])
        for c, r in zip(part, res):
            out.trace({"rows (y,x)": c}, steps=len(c), state=("huge", c))
            ys, xs = [p[0] for p in c], [p[1] for p in c]
            ofl = st.overflows1(xs) or st.overflows1(ys)
            if ofl and not isinstance(r, Err):
                out.violation({"rows (y,x)": c}, "overflow error", repr(r))
            if not ofl and INF not in ys and isinstance(r, Err):
                out.violation({"rows (y,x)": c}, "no error", repr(r))
    chk.explore("overflow is an error", [c for n in range(1, 4) for c in itertools.product(HUGE, repeat=n)], work3)

    def work4(conn, part, out):
        for f, nm, ok in part:
            q = f"SELECT {f}(a, '{nm}'), {f}(a, '{ok or 'sample'}'), a -> {f}('{nm}') FROM (SELECT stats_agg(v, w) a FROM (VALUES (1.0::float8,2.0::float8),(2.5,9),(7,4),(-1,0)) v(v,w)) s"
            out.trace((f, nm), state=(f, nm))
            r = conn.try_q(q)
            if (ok is None) != isinstance(r, Exception) or (ok and not (r[0][0] == r[0][1] == r[0][2])):
                out.violation((f, nm), "same as " + str(ok), repr(r))
    names = {"population": "population", "pop": "population", " POP ": "population", "sample": "sample", "samp": "sample", "x": None, "": None}
    fs = [f"{k}_{v}" for k in ("stddev", "variance", "skewness", "kurtosis") for v in "xy"] + ["covariance"]
    chk.explore("methods", [(f, n, o) for f in fs for n, o in names.items()], work4)


if __name__ == "__main__":
    main(run_)
