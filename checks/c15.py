"""C15: tdigest estimates are bracketed by the exact order statistics."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from aggrun import run
from tdig import *

T, AGG = "tdigest", "tdigest(int,float8)"
NAN = math.nan


def run_(chk):
    for al, sizes in (([-3.0, 0.0, 1.5, 10.0], (20, 3)), ([0.1, 0.3, 1e6, -1e-3], (12,)), ([7.0, NAN, None, 2.0], (20,))):
        probes = sorted({v for v in al if v is not None and v == v} | {-5.0, -1.0, 0.2, 1.4, 5.0, 2e6})
        CO = cols(probes)
        for size in sizes:
            cs = [s for n in range(0, chk.pick(6, 8)) for s in itertools.product(al if n < 6 else al[:3], repeat=n)]

            def work(conn, part, out):
                for c, r in zip(part, run(conn, T, AGG, CO, [("[*", [(size, v) for v in s]) for s in part])):
                    out.trace({"size": size, "values": c}, steps=len(c) + 1, state=(size, tuple(sorted(map(str, c)))))
                    bad = judge(c, size, probes, r)
                    if bad:
                        out.violation({"size": size, "values": c}, f"{bad[0]}: {bad[1]}", bad[2])
            chk.explore(f"sequences of {al}, size {size}", cs, work)

    ser = [(n, nm, o, size) for n in chk.pick((1, 2, 7, 40, 49, 50, 51, 99, 100, 101, 200, 1000), (1, 2, 3, 5, 7, 10, 20, 40, 49, 50, 51, 99, 100, 101, 150, 200, 300, 1000, 5000))
           for nm in SER for o in ("up", "down", "mix", "perm") for size in chk.pick((10, 100), (4, 10, 50, 100, 200))]
    ser += [(n, nm, o, size) for n in (1300, 2700) for nm in ("linear", "signed") if nm in SER for o in ("down", "mix", "perm") for size in (10, 100)]

    def work2(conn, part, out):
        for n, nm, o, size in part:
            vs = order(SER[nm](n), o)
            s = sorted(vs)
            probes = sorted({s[0] - 1, s[0], s[n // 3], s[n // 2], s[n // 2] + .01, s[-1], s[-1] + 1})
            r = run(conn, T, AGG, cols(probes), [("[*", [(size, v) for v in vs])])[0]
            out.trace({"series": (n, nm, o), "size": size}, steps=n, state=(n, nm, o, size))
            bad = judge(vs, size, probes, r)
            if bad:
                out.violation({"series": (n, nm, o), "size": size}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("long series", ser, work2, chunk=6)

    def work3(conn, part, out):
        for q, ok in part:
            out.trace(q, state=q)
            r = conn.try_q(q)
            if ok != (not isinstance(r, Exception)):
                out.violation(q, "ok" if ok else "error", repr(r))
    chk.explore("arguments", [(f"SELECT tdigest({n}, v) FROM (VALUES (1.0::float8),(2)) v(v)", ok) for n, ok in ((-1, 0), (1, 1), (100, 1), (-100000, 0))], work3)


if __name__ == "__main__":
    main(run_)
