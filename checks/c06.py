"""C06: time_weight's average / integral / endpoints for every input."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, close, pf, ts
from aggrun import run, Err
import tw, c01

SEC = 1000000
T = "timeweightsummary"
AGG = "time_weight(text,timestamptz,float8)"
US = lambda e: f"(extract(epoch from {e} - '2000-01-01 UTC'::timestamptz)*1000000)::numeric(30,0)"
METHODS = [("linear", True), ("LOCF", False), ("Trapezoidal", True), (" locf ", False)]


def cases(chk):
    Ts = [-3 * SEC, 0, 1, 2500000, 10 * SEC]
    V = [-2.0, 0.0, 1.0, 7.5]
    pts = [(t, v) for t in Ts for v in V]
    for n in range(0, 4):
        yield from itertools.product(pts, repeat=n)
    for n in range(4, chk.pick(7, 9)):
        tt = [k * k * 700000 - SEC for k in range(n)]
        for vs in itertools.product([-1.0, 0.0, 2.0, 6.0] if n < 6 else [-1.0, 3.0], repeat=n):
            yield tuple(zip(tt, vs))
    base = [(0, 5.0), (SEC, 3.0), (3 * SEC, 3.0), (4 * SEC, 10.0), (9 * SEC, 0.5)]
    yield from itertools.permutations(base)
    pn = [(None, None), (None, 4.0), (SEC, None), (0, 2.0), (2 * SEC, 1.0)]
    for n in range(0, chk.pick(5, 6)):
        yield from itertools.product(pn, repeat=n)
    yield from c01.big(chk)
    yield from c01.thousands(chk)
    for base in (631152000 * SEC, -631152000 * SEC * 20):
        for vs in itertools.product([0.0, 2.0, 5.0], repeat=3):
            for gaps in itertools.product([1, 60 * SEC, 86400 * 365 * SEC], repeat=2):
                yield tuple(zip([base, base + gaps[0], base + sum(gaps)], vs))


COLS = ["average(a)", "integral(a)", "integral(a,'microsecond')", "first_val(a)", "last_val(a)", US("first_time(a)"), US("last_time(a)")]


def compare(m, r):
    if m is None:
        return r is not None and not isinstance(r, Err) and all(x is None for x in r)
    if isinstance(r, Err):
        return False
    e = [m["average"], m["integral"] / 10**6, m["integral"], m["first_val"], m["last_val"]]
    return all(close(None if x is None else float(x), pf(g), 1e-9, 1e-9) for x, g in zip(e, r)) and \
        int(r[5]) == m["first_time"] and int(r[6]) == m["last_time"]


def run_(chk):
    cs = list(cases(chk))
    for name, linear in METHODS:
        sub = cs if name in ("linear", "LOCF") else cs[:3000]

        def work(conn, part, out):
            res = run(conn, T, AGG, COLS, [("[*", [[name, ts(t), v] for t, v in c]) for c in part])
            for c, r in zip(part, res):
                m = tw.summary(c, linear)
                case = {"method": name, "points": c}
                out.trace(case, steps=len(c) + 1, state=None if m is None else (linear, tuple(m["_ps"])))
                if not compare(m, r):
                    out.violation(case, repr(m), repr(r))
        chk.explore("time_weight " + name, sub, work)

    # every spelling of every unit, on every summary shape
    units = [(u, a) for u, al in tw.ALIASES.items() for a in al] + [(None, "day"), (None, ""), (None, "secondss")]
    shapes = [((0, 3.0),), ((0, 3.0), (90 * SEC, 5.0)), ((0, 3.0), (1, 4.0), (7200 * SEC, -5.0))]

    def work(conn, part, out):
        for (u, a), c, (name, linear) in part:
            m = tw.summary(c, linear)
            r = run(conn, T, AGG, [f"integral(a,'{a}')", f"a->integral('{a}')"], [("[*", [[name, ts(t), v] for t, v in c])])[0]
            case = {"unit": a, "points": c, "method": name}
            out.trace(case, state=(a, c, name))
            if u is None:
                ok = isinstance(r, Err)
            else:
                e = float(m["integral"] / tw.UNITS[u])
                ok = not isinstance(r, Err) and close(e, pf(r[0]), 1e-9, 1e-12) and close(e, pf(r[1]), 1e-9, 1e-12)
            if not ok:
                out.violation(case, "integral in the unit / error for an unknown unit", repr(r))
    chk.explore("units", list(itertools.product(units, shapes, METHODS[:2])), work)


if __name__ == "__main__":
    main(run_)
