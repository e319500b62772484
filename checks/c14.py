"""C14: uddsketch from partial aggregates / rollup equals the single pass."""
import os, sys, itertools, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mclib import main, close
from aggrun import run, Err
import partial
from udd import Sketch
from c13 import cols, verify, T

INF = math.inf


def run_(chk):
    for size, err, alphs in ((3, 0.1, [[1.05, 8.1, 1000.5, 40.7], [1.7, None, 330.3], [-9.1, 0.0, -1.2]]),
                             (5, 0.05, [[-3.1, -71.2, 0.0, 2.2], [INF, -INF, 1.7], [5.5, 77.7, 1e6]]),
                             (1, 0.01, [[1.05, 8.1, 1000.5]])):
        probes = [-77.0, -1.07, 0.0, 2.17, 60.6, 4000.1]
        CO = cols(probes)
        partial.explore(chk, f"uddsketch({size},{err})", T, "uddsketch(int,float8,float8)", "rollup(uddsketch)", CO, alphs,
                        lambda v: (size, err, v), lambda vs, r: verify(vs, size, err, probes, r), chk.pick(4, 5), roll_max=3, n4=3 if chk.thorough else 2)

    # larger parts: several compactions at different levels
    probes = [-50.01, 1.3, 1234.5]
    CO = cols(probes)
    S = {"a": [1.0123 * 1.13 ** i for i in range(60)], "b": [i + 0.37 for i in range(150)], "c": [-1.7 * 1.3 ** i for i in range(90)],
         "d": [0.0] * 40, "e": [2.17], "f": []}
    AG = (("percentile_agg(float8)", 200, 0.001), ("uddsketch(int,float8,float8)", 20, 0.05))

    def work(conn, part, out):
        for agg, size, err in AG:
            row = (lambda v: (v,)) if agg[0] == "p" else (lambda v: (size, err, v))
            lf = {k: run(conn, T, agg, ["a::text"], [("[*", [row(v) for v in S[k]])])[0] for k in S}
            for c in part:
                vs = [v for k in c for v in S[k]]
                for tree in (["[" + "".join("0123"[i] for i in range(len(c)))] + list(partial.schedules(len(c), perms=False))):
                    r = run(conn, T, "rollup(uddsketch)", CO, [(tree, [[lf[k][0]] for k in c])])[0]
                    out.trace({"agg": agg, "rollup of": c, "schedule": tree}, steps=len(tree), state=(agg, c, tree))
                    bad = verify(vs, size, err, probes, r)
                    if bad:
                        out.violation({"agg": agg, "rollup of": c, "schedule": tree}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of large sketches", list(itertools.product(S, repeat=2)) + list(itertools.permutations(S, 3)), work, chunk=4)

    # sketches of different parameters cannot be merged
    def work3(conn, part, out):
        for a, b in part:
            for q in (f"SELECT rollup(s) FROM (SELECT uddsketch({a[0]},{a[1]},v) s FROM (VALUES (1.0::float8),(2)) v(v) UNION ALL SELECT uddsketch({b[0]},{b[1]},v) FROM (VALUES (1.0::float8),(3)) v(v)) x",
                      f"SELECT mcrun(NULL::uddsketch, 'uddsketch(int,float8,float8)', '[0[1+', array[['{a[0]}','{a[1]}','1.5'],['{b[0]}','{b[1]}','2.5']])"):
                r = conn.try_q(q)
                out.trace(q, state=q)
                if isinstance(r, Exception) != (a != b):
                    out.violation(q, "error" if a != b else "ok", repr(r))
    P = [(20, 0.1), (21, 0.1), (20, 0.05)]
    chk.explore("parameters", list(itertools.product(P, P)), work3)


if __name__ == "__main__":
    main(run_)
