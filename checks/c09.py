"""C09: one-variable stats_agg equals the exact statistics of its input."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from aggrun import run, Err
import st
from st import ACC1

T = "statssummary1d"
COLS = [a for _, a in ACC1]
INF, NAN = math.inf, math.nan


def values(chk):
    A = [-2.0, 0.0, 0.5, 3.0, None]
    for n in range(0, chk.pick(6, 7)):
        yield from itertools.product(A, repeat=n)
    for n in range(6, chk.pick(10, 13)):
        yield from itertools.product([1.0, 4.0], repeat=n)
    # groups of hundreds and thousands of rows
    for n in chk.pick((130, 1100, 4200), (130, 260, 520, 1100, 2100, 4200, 8300)):
        yield tuple(float(i * 37 % 101) - 50 for i in range(n))
        yield tuple(None if i % 9 == 2 else float(i % 7) for i in range(n))
        yield tuple(float(i // 50) for i in reversed(range(n)))
    # shifted data: the statistics must not lose the spread to the offset
    for off in (1e6, -1e6):
        for v in itertools.product([0.0, 1.0, 2.5], repeat=4):
            yield tuple(off + x for x in v)


def inf_tag(tf, bad):
    """The two-float arithmetic of stats_agg_tf turns an infinite sum into NaN."""
    if tf and bad[0].split("@")[0] in ("sum", "average") and isinstance(bad[1], float) and math.isinf(bad[1]) and bad[2] == "NaN":
        return "tf-infinite-sum"
    return None


SPECIAL = [INF, -INF, NAN, 0.0, 7.0, None]
HUGE = [1e308, -1e308, 1e70, -2.0, INF, NAN]


def run_(chk):
    for agg in ("stats_agg(float8)", "stats_agg_no_inv(float8)", "toolkit_experimental.stats_agg_tf(float8)"):
        tf = "tf" in agg
        cs = list(values(chk)) + [v for n in range(1, 5) for v in itertools.product(SPECIAL, repeat=n)]

        def work(conn, part, out):
            res = run(conn, T, agg, COLS, [("[*", [[v] for v in c]) for c in part])
            for c, r in zip(part, res):
                out.trace({"agg": agg, "rows": c}, steps=len(c) + 1, state=(agg, tuple(sorted(map(str, c)))))
                if not c:
                    bad = None if all(x is None for x in r) else ("empty input", None, repr(r))
                else:
                    e = st.expect1(c)
                    bad = ("no error", e, repr(r)) if isinstance(r, Err) else st.diff(ACC1, e, r, 1e-9, 1e-7 if any(abs(x or 0) > 1e5 for x in c if x is not None and math.isfinite(x)) else 1e-9)
                if bad:
                    out.violation({"agg": agg, "rows": c}, f"{bad[0]} = {bad[1]}", bad[2], tag=inf_tag(tf, bad))
        chk.explore(agg, cs, work)

    def work2(conn, part, out):
        res = run(conn, T, "stats_agg(float8)", COLS, [("[*", [[v] for v in c]) for c in part])
        for c, r in zip(part, res):
            out.trace({"rows": c}, steps=len(c) + 1, state=("huge", tuple(map(str, c))))
            if st.overflows1(c):
                if not isinstance(r, Err):
                    out.violation({"rows": c}, "overflow error", repr(r))
            else:
                e = st.expect1(c)
                bad = ("no error", e, repr(r)) if isinstance(r, Err) else st.diff(ACC1, e, r)
                if bad:
                    out.violation({"rows": c}, f"{bad[0]} = {bad[1]}", bad[2])
    chk.explore("overflow is an error", [v for n in range(1, 5) for v in itertools.product(HUGE, repeat=n)], work2)

    # bigint: exact within +-2^53, an error outside
    LIM = 1 << 53
    B = [None, 0, 5, -3, LIM, -LIM, LIM + 1, -LIM - 1, (1 << 63) - 1, -(1 << 63)]

    def work3(conn, part, out):
        for c, r in zip(part, run(conn, T, "stats_agg(bigint)", COLS, [("[*", [[v] for v in c]) for c in part])):
            out.trace({"bigint rows": c}, steps=len(c) + 1, state=("big", c))
            if any(x is not None and abs(x) > LIM for x in c):
                if not isinstance(r, Err):
                    out.violation({"bigint rows": c}, "error", repr(r))
                continue
            e = st.expect1([None if x is None else float(x) for x in c])
            big = any(x is not None and abs(x) > 100 for x in c)
            if big:     # the sum may cancel: absolute error of a few ulp of 2^53; a tiny third moment may vanish
                e = {k: v for k, v in e.items() if not k.startswith("skew")}
            bad = ("no error", e, repr(r)) if isinstance(r, Err) else st.diff(ACC1, e, r, 1e-6 if big else 1e-9, 8.0 if big else 1e-9)
            if bad:
                out.violation({"bigint rows": c}, f"{bad[0]} = {bad[1]}", bad[2])
    chk.explore("bigint", [v for n in range(1, 4) for v in itertools.product(B, repeat=n)], work3)

    # spelling of the method argument
    names = {"population": "population", "pop": "population", " POP ": "population", "Population": "population",
             "sample": "sample", "samp": "sample", "SAMPLE": "sample", "x": None, "": None, "populations": None}

    def work4(conn, part, out):
        for f, nm in part:
            q = f"SELECT {f}(a, '{nm}'), {f}(a, '{names[nm] or 'sample'}'), a -> {f}('{nm}') FROM (SELECT stats_agg(v) a FROM (VALUES (1.0::float8),(2.5),(7),(-1)) v(v)) s"
            out.trace((f, nm), state=(f, nm))
            r = conn.try_q(q)
            if (names[nm] is None) != isinstance(r, Exception) or (names[nm] and not (r[0][0] == r[0][1] == r[0][2])):
                out.violation((f, nm), "same as " + str(names[nm]), repr(r))
    chk.explore("methods", list(itertools.product(["stddev", "variance", "skewness", "kurtosis"], names)), work4)


if __name__ == "__main__":
    main(run_)
