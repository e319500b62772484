"""C11: stats_agg from partial aggregates / rollup equals the single pass."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, set_partitions, leaf
from aggrun import run, Err, schedules
import st, partial
from st import ACC1, ACC2

INF, NAN = math.inf, math.nan
D1 = ("statssummary1d", "stats_agg(float8)", "rollup(statssummary1d)", ACC1, st.expect1, lambda v: [v])
DB = ("statssummary1d", "stats_agg(bigint)", "rollup(statssummary1d)", ACC1, lambda c: st.expect1([None if v is None else float(v) for v in c]), lambda v: [v])
D2 = ("statssummary2d", "stats_agg(float8,float8)", "rollup(statssummary2d)", ACC2, st.expect2, lambda v: list(v))


def run_(chk):
    for d, alphs in ((D1, [[-1.0, 0.0, 4.0], [None, 2.0, INF], [NAN, 1.0, None], [1e6, 1e6 + 1, 1e6 + 5]]),
                     (DB, [[-1, 0, None], [1 << 40, 7, -9]]),
                     (D2, [[(1.0, 2.0), (-3.0, 0.0), (0.0, 5.0)], [(1.0, None), (2.0, 1.0), (4.0, 3.0)], [(INF, 1.0), (2.0, NAN), (4.0, 3.0)]])):
        T, AGG, ROLL, ACC, EXPECT, ROW = d
        COLS = [a for _, a in ACC]
        cases = []
        for ai, al in enumerate(alphs):
            for n in range(1, chk.pick(4, 5) + 1):
                # statistics do not depend on the order: all set partitions of the rows
                progs = list(schedules(n, partitions="set" if n < 4 else "consecutive", null_parts=True))
                if n == 3:
                    progs += ["[" + "".join("012"[i] + "f" for i in a) for a in itertools.permutations(range(3))]
                for vs in itertools.product(al if n < 4 else al[:2], repeat=n):
                    cases += [(vs, p) for p in progs]
        exp = {}

        def work(conn, part, out):
            res = run(conn, T, AGG, COLS, [(p, [ROW(v) for v in c]) for c, p in part])
            for (c, p), r in zip(part, res):
                out.trace({"agg": AGG, "rows": c, "schedule": p}, steps=len(p), state=(AGG, c, p))
                k = str(c)
                if k not in exp:
                    exp[k] = EXPECT(c)
                bad = ("no error", exp[k], repr(r)) if isinstance(r, Err) else st.diff(ACC, exp[k], r, 1e-8, 1e-5 if any(isinstance(v, (int, float)) and math.isfinite(v) and abs(v) > 1e4 for v in c) else 1e-8)
                if bad:
                    out.violation({"agg": AGG, "rows": c, "schedule": p}, f"{bad[0]} = {bad[1]}", bad[2])
        chk.explore(AGG + ": all schedules", cases, work)

        def judge(c, r):
            return ("no error", "", repr(r)) if isinstance(r, Err) else st.diff(ACC, EXPECT(c), r, 1e-8, 1e-8)
        lal = {D1[1]: [-3.0, None, 0.5, 7.0, 2.0], DB[1]: [-3, None, 1 << 20, 7, 2], D2[1]: [(1.0, 2.0), (-3.0, 0.0), (None, 1.0), (0.0, 5.0), (2.0, 2.5)]}[AGG]
        partial.large(chk, AGG, T, AGG, COLS, [(w, p) for n in chk.pick((130, 1100), (130, 260, 520, 1100, 2500)) for w in partial.large_words(lal, n) for p in partial.large_progs(n, False)], ROW, judge)

        cases = []
        for al in alphs:
            for n in range(1, chk.pick(4, 5)):
                for blocks in set_partitions(range(n)):
                    rps = list(schedules(len(blocks), null_parts=True))
                    for vs in itertools.product(al, repeat=n):
                        cases.append((vs, blocks, rps))

        def work2(conn, part, out):
            todo = [(ci, b) for ci, (_, blocks, _) in enumerate(part) for b in blocks]
            leafs = run(conn, T, AGG, ["a::text"], [("[*", [ROW(part[ci][0][i]) for i in b]) for ci, b in todo])
            per = {}
            for (ci, b), r in zip(todo, leafs):
                per.setdefault(ci, []).append([r[0]])
            items = [(ci, p) for ci, (_, _, rps) in enumerate(part) for p in rps]
            for (ci, p), r in zip(items, run(conn, T, ROLL, COLS, [(p, per[ci]) for ci, p in items])):
                c, blocks, _ = part[ci]
                out.trace({"agg": AGG, "rows": c, "rollup of": blocks, "schedule": p}, steps=len(p), state=(AGG, "r", c, str(blocks), p))
                e = EXPECT(c)
                bad = ("no error", e, repr(r)) if isinstance(r, Err) else st.diff(ACC, e, r, 1e-8, 1e-5 if any(isinstance(v, (int, float)) and math.isfinite(v) and abs(v) > 1e4 for v in c) else 1e-8)
                if bad:
                    out.violation({"agg": AGG, "rows": c, "rollup of": blocks, "schedule": p}, f"{bad[0]} = {bad[1]}", bad[2])
        chk.explore(AGG + ": rollup", cases, work2, chunk=60)


if __name__ == "__main__":
    main(run_)
