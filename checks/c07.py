"""C07: time_weight from partial aggregates / rollup equals the single pass; overlap and method mixing are errors."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, compositions, set_partitions, leaf
from aggrun import run, Err, schedules
import tw, partial
from c06 import compare, COLS, T, AGG, SEC
from c03 import overlapping


def run_(chk):
    V = [-1.0, 0.0, 3.0]
    tt = [-SEC, 0, 1500000, 4 * SEC, 4 * SEC + 1]
    rows = lambda meth, c: [[meth, ts(t), v] for t, v in c]
    for meth, linear in (("linear", True), ("locf", False)):
        cases = []
        for n in range(1, chk.pick(4, 5) + 1):
            progs = list(schedules(n, null_parts=True))
            for vs in itertools.product(V if n <= 3 else [-1.0, 3.0], repeat=n):
                pts = tuple(zip(tt, vs))
                cases += [(pts, p) for p in progs]
        for n in range(1, 5):
            for vs in itertools.product(V, repeat=n):
                pts = tuple(zip(tt, vs))
                for a in itertools.permutations(range(n)):
                    cases.append((pts, "[" + "".join("0123456"[i] + "f" for i in a)))

        def work(conn, part, out):
            res = run(conn, T, AGG, COLS, [(p, rows(meth, pts)) for pts, p in part])
            for (pts, p), r in zip(part, res):
                case = {"method": meth, "points": pts, "schedule": p}
                out.trace(case, steps=len(p), state=(meth, pts, p))
                if not compare(tw.summary(pts, linear), r):
                    out.violation(case, "single-pass result", repr(r))
        chk.explore(meth + ": all schedules", cases, work)

        cases = []
        for n in range(1, 5):
            for blocks in compositions(n):
                rps = list(schedules(len(blocks), null_parts=True))
                for vs in itertools.product(V if n < 4 else [0.0, 2.0], repeat=n):
                    cases.append((tuple(zip(tt, vs)), blocks, rps))

        def work2(conn, part, out):
            todo = [(ci, b) for ci, (pts, blocks, _) in enumerate(part) for b in blocks]
            leafs = run(conn, T, AGG, ["a::text"], [("[*", rows(meth, [part[ci][0][i] for i in b])) for ci, b in todo])
            per = {}
            for (ci, b), r in zip(todo, leafs):
                per.setdefault(ci, []).append([r[0]])
            items = [(ci, p) for ci, (_, _, rps) in enumerate(part) for p in rps]
            res = run(conn, T, "rollup(timeweightsummary)", COLS, [(p, per[ci]) for ci, p in items])
            for (ci, p), r in zip(items, res):
                pts, blocks, _ = part[ci]
                case = {"method": meth, "points": pts, "rollup of": blocks, "schedule": p}
                out.trace(case, steps=len(p), state=(meth, "rollup", pts, str(blocks), p))
                if not compare(tw.summary(pts, linear), r):
                    out.violation(case, "single-pass result", repr(r))
        chk.explore(meth + ": rollup", cases, work2, chunk=60)

        cases = []
        for n in chk.pick((130, 1100), (130, 260, 520, 1100, 2500)):
            pts = tuple((i * SEC, float(i * 37 % 101)) for i in range(n))
            cases += [(pts, p) for p in partial.large_progs_time(n)]

        def work_l(conn, part, out):
            for pts, p in part:
                r = run(conn, T, AGG, COLS, [(p, rows(meth, pts))])[0]
                case = {"method": meth, "rows": len(pts), "first": pts[:5], "schedule": p}
                out.trace(case, steps=len(pts), state=(meth, len(pts), p))
                if not compare(tw.summary(pts, linear), r):
                    out.violation(case, "single-pass result", repr(r))
        chk.explore(meth + ": large partials", cases, work_l, chunk=1)

        cases = []
        for n in range(2, 5):
            for times in [tt[:n], [0, 0] + tt[2:n], ([0, SEC, SEC] + tt[4:])[:n]]:
                for vs in itertools.product([1.0, 2.0], repeat=n):
                    pts = tuple(zip(times, vs))
                    for blocks in set_partitions(range(n)):
                        if len(blocks) > 1:
                            for order in itertools.permutations(blocks) if len(blocks) < 4 else [blocks]:
                                for s in ("", "s"):
                                    cases.append((pts, order, "[" + "".join(leaf(b) + s + "+" for b in order)))

        def work3(conn, part, out):
            res = run(conn, T, AGG, COLS, [(p, rows(meth, pts)) for pts, _, p in part])
            for (pts, blocks, p), r in zip(part, res):
                case = {"method": meth, "points": pts, "schedule": p}
                out.trace(case, steps=len(p), state=("ov", meth, pts, p))
                if overlapping(blocks, pts):
                    if not isinstance(r, Err):
                        out.violation(case, "ERROR", repr(r))
                elif not compare(tw.summary(pts, linear), r):
                    out.violation(case, "single-pass result", repr(r))
        chk.explore(meth + ": overlap rejected", cases, work3)

    def work4(conn, part, out):
        for m1, m2, order, s in part:
            a = run(conn, T, AGG, ["a::text"], [("[*", rows(m1, [(0, 1.0), (SEC, 2.0)]))])[0][0]
            b = run(conn, T, AGG, ["a::text"], [("[*", rows(m2, [(2 * SEC, 1.0), (3 * SEC, 5.0)]))])[0][0]
            ab = [[a], [b]] if order else [[b], [a]]
            r = run(conn, T, "rollup(timeweightsummary)", COLS, [(s, ab)])[0]
            out.trace((m1, m2, order, s), steps=4, state=(m1, m2, order, s))
            if (m1 != m2) != isinstance(r, Err):
                out.violation({"rollup of methods": [m1, m2], "schedule": s}, "error iff the methods differ", repr(r))
    chk.explore("method mixing", list(itertools.product(["linear", "locf"], ["linear", "locf"], [0, 1], ["[01", "[[0s+[1s+", "[0[1+"])), work4, chunk=4)


if __name__ == "__main__":
    main(run_)
