"""C04: bounds and Prometheus extrapolation of counter_agg / gauge_agg."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from metric_check import *

INF = None


def bound_cases():
    L = [INF, -5 * SEC, 0, 7 * SEC]
    H = [INF, 20 * SEC, 20 * SEC + 1, 30 * SEC + 500000, 30 * SEC + 1001, 31 * SEC, 60 * SEC]
    for lo in L:
        for hi in H:
            for br in ("[)", "(]", "[]", "()"):
                text = br[0] + ("" if lo is INF else ts(lo)) + "," + ("" if hi is INF else ts(hi)) + br[1]
                l = None if lo is INF else lo + (br[0] == "(")
                h = None if hi is INF else hi + (br[1] == "]")
                yield text, l, h
    yield "empty", "empty", "empty"


def point_sets(chk):
    T = [0, 10 * SEC, 20 * SEC, 30 * SEC]
    for n in range(1, 5):
        for tt in itertools.combinations(T, n):
            for vs in itertools.product([0.0, 2.0, 5.0] if n < 4 or chk.thorough else [0.0, 3.0], repeat=n):
                yield tuple(zip(tt, vs))


def contained(p, l, h):
    return all((l is None or t >= l) and (h is None or t < h) for t, _ in p)


def cmp(got, exp, near):
    if exp == "error":
        return isinstance(got, Err)
    if isinstance(got, Err):
        return False
    return near or close(pf(got), None if exp is None else float(exp), 1e-9, 1e-9)


def run_kind(chk, k):
    m = "" if not k.counter else ", 'prometheus'"
    pts = list(point_sets(chk))
    bounds = list(bound_cases())
    cases = [(p, b) for p in pts for b in bounds]
    # bounds that end exactly at, just before and just after the extrapolation threshold of 110% of the spacing
    for n in (2, 3, 5):
        for vs in ((10.0, 1.0), (10.0, 12.0), (0.0, 1.0), (-3.0, 2.0)):
            p = tuple((i * SEC, vs[0] + i * vs[1]) for i in range(n))
            for x, y in itertools.product((-1, 0, 1, None), repeat=2):
                lo = -500000 if x is None else -1100000 + x
                hi = (n - 1) * SEC + 1000 + (500000 if y is None else 1100000 + y)
                cases.append((p, ("[" + ts(lo) + "," + ts(hi) + ")", lo, hi)))

    def expect(p, l, h):
        if l == "empty":
            return "error", "error", False
        r = metric.extrapolated(p, l, h, k.counter)
        if r == "error":
            return "error", "error", False
        if len(r) == 2:
            return r[0], r[1], False
        return r

    def work(conn, part, out):
        accs = [f"extrapolated_delta(a{m})", f"extrapolated_rate(a{m})"]
        accs += [f"(a->extrapolated_delta('prometheus'))", f"(a->extrapolated_rate('prometheus'))"]
        # samples outside of the bounds are an error whatever is asked of the aggregate, samples inside are not
        accs += ["num_elements(a)"]
        # NULL rows do not matter wherever they are; the bounds argument is constant as documented
        res = run_each(conn, k.type, k.aggb, accs,
                       [("[*", [[ts(t), v, b[0]] for t, v in p]) for p, b in part])
        for (p, b), r in zip(part, res):
            case = {"agg": k.aggb, "points": p, "bounds": b[0]}
            out.trace(case, steps=len(p) + 2, state=(k.name, p, b[1], b[2]))
            if b[1] != "empty" and not contained(p, b[1], b[2]):
                if not all(isinstance(x, Err) for x in r):
                    out.violation(case, "ERROR: bounds invalid", repr(r))
                continue
            d, q, near = expect(p, b[1], b[2])
            if isinstance(r[4], Err) or int(r[4]) != len(p):
                out.violation(case, f"{len(p)} elements", repr(r))
            for x, e in zip(r, (d, q, d, q)):
                if not cmp(x, e, near):
                    out.violation(case, [str(d), str(q)], repr(r))
                    break
        # the same bounds applied afterwards
        for form in ("with_bounds(a, %s::tstzrange)", "(a->with_bounds(%s::tstzrange))"):
            items = {}
            for p, b in part:
                items.setdefault(b, []).append(p)
            for b, ps in items.items():
                w = form % lit(b[0])
                accs = [f"extrapolated_delta({w}{m})", f"extrapolated_rate({w}{m})", f"delta({w})"]
                res = run_each(conn, k.type, k.agg, accs, [("[*", rows(p)) for p in ps])
                for p, r in zip(ps, res):
                    case = {"agg": k.agg, "points": p, "with_bounds": b[0]}
                    out.trace(steps=len(p) + 2)
                    d, q, near = expect(p, b[1], b[2])
                    e = metric.model(p, k.counter)["delta"]
                    if not (cmp(r[0], d, near) and cmp(r[1], q, near) and cmp(r[2], e, False)):
                        out.violation(case, [str(d), str(q), str(e)], repr(r))
    chk.explore(k.name + ": bounds x points", cases, work, chunk=400)

    # rollup extends the bounds to the hull of the parts' bounds
    parts = [((0, 1.0), (5 * SEC, 2.0)), ((10 * SEC, 4.0),), ((20 * SEC, 1.0), (25 * SEC, 6.0))]
    opts = [[None, (0, 10), (-3, 6), (INF, 10), (-3, INF)], [None, (10, 20), (8, 26)], [None, (20, 30), (20, INF), (-9, 40)]]
    cases = [(c, o) for c in itertools.product(*opts) for o in itertools.permutations(range(3))]

    def work2(conn, part, out):
        for c, order in part:
            summ = []
            for p, b in zip(parts, c):
                if b is None:
                    r = run(conn, k.type, k.agg, ["a::text"], [("[*", rows(p))])
                else:
                    t = "[" + ("" if b[0] is INF else ts(b[0] * SEC)) + "," + ("" if b[1] is INF else ts(b[1] * SEC)) + ")"
                    r = run(conn, k.type, k.aggb, ["a::text"], [("[*", [[ts(x), v, t] for x, v in p])])
                summ.append(r[0][0])
            given = [b for b in c if b is not None]
            if not given:
                l = h = None
                exp = ("error", "error", False)
            else:
                l = None if any(b[0] is INF for b in given) else min(b[0] for b in given) * SEC
                h = None if any(b[1] is INF for b in given) else max(b[1] for b in given) * SEC
                allp = sum(parts, ())
                exp = expect(allp, l, h) if contained(allp, l, h) else "invalid"
            r = run_each(conn, k.type, k.rollup, [f"extrapolated_delta(a{m})", f"extrapolated_rate(a{m})", "num_elements(a)"],
                         [("[*", [[summ[i]] for i in order]), ("[" + "".join("[%ds+" % i for i in range(3)), [[summ[i]] for i in order])])
            case = {"agg": k.rollup, "bounds": c, "order": order}
            out.trace(case, steps=9, state=(k.name, "rollup", c, order))
            for x in r:
                if exp == "invalid":
                    ok = all(isinstance(y, Err) for y in x)
                else:
                    ok = cmp(x[0], exp[0], exp[2]) and cmp(x[1], exp[1], exp[2]) and not isinstance(x[2], Err) and int(x[2]) == 5
                if not ok:
                    out.violation(case, repr(exp), repr(x))
    chk.explore(k.name + ": rollup of bounds", cases, work2, chunk=20)


def run_(chk):
    run_kind(chk, Kind("counter"))
    run_kind(chk, Kind("gauge"))


if __name__ == "__main__":
    main(run_)
