"""C18: hyperloglog from partial aggregates / rollup has the exact registers of the union."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
from aggrun import run, Err, schedules
import partial
from hll import Model, judge, hashes, COLS

T = "hyperloglog"


def run_(chk):
    conn = chk.start_pg().conn()
    for typ, al, size in (("bigint", ["1", "2", "77", None], 16), ("text", ["a", "b", "xyz"], 64), ("float8", ["0", "-0", "2.5"], 32)):
        hs = dict(zip([v for v in al if v], hashes(conn, typ, [v for v in al if v])))

        def jd(vs, r):
            if isinstance(r, Err):
                return "no error", "", repr(r)
            hv = [hs[v] for v in vs if v is not None]
            if not hv:
                return None if all(x is None for x in r) else ("NULL", None, repr(r))
            return judge(Model(hv, size), *r)
        # the executor combines partial states of type internal only after a serialize/deserialize round trip
        partial.explore(chk, f"{typ}", T, "hyperloglog(int,anyelement)", "rollup(hyperloglog)", COLS, [al], lambda v: (size, v), jd,
                        chk.pick(4, 5), roll_max=3, argtypes=["int", typ], serialize=(True,), n4=3)

    # parts of different representations: sparse with few / many entries, dense
    N = (0, 1, 3, 10, 30, 200, 1500)
    cs = [(size, ns, ov) for size in chk.pick((16, 256, 2048), (16, 64, 256, 2048, 16384)) for k in (2, 3) for ns in itertools.product(N, repeat=k) if k == 2 or len(set(ns)) == 3 or chk.thorough for ov in (0, 1)]

    def work(conn, part, out):
        for size, ns, ov in part:
            lo, leafs, vals = 0, [], set()
            for n in ns:
                r = conn.q(f"SELECT hyperloglog({size}, i)::text, array_agg(hashint8extended(i, 0)) FROM generate_series({lo}::bigint, {lo + n - 1}) i")[0]
                leafs.append([r[0]])
                if r[1]:
                    vals |= {int(x) & ((1 << 64) - 1) for x in r[1].strip("{}").split(",")}
                lo += n // 2 if ov else n
            progs = ["[" + "012"[:len(ns)], "[" + "012"[:len(ns)][::-1], "[" + "".join(x + "f" for x in "012"[:len(ns)])] + list(schedules(len(ns), serialize=(True,), perms=len(ns) == 2))
            m = Model(vals, size) if vals else None
            for p, r in zip(progs, run(conn, T, "rollup(hyperloglog)", COLS, [(p, leafs) for p in progs])):
                case = {"size": size, "rollup of": ns, "overlapping": ov, "schedule": p}
                out.trace(case, steps=len(p), state=(size, ns, ov, p))
                if isinstance(r, Err):
                    bad = "no error", "", repr(r)
                elif m is None:
                    bad = None if r[0] is None else ("NULL", None, r)
                else:
                    bad = judge(m, *r)
                if bad:
                    out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of different representations", cs, work, chunk=8)

    # many parts: the result must not outgrow the registers
    def work2(conn, part, out):
        for size, n, k in part:
            r = conn.q(f"SELECT {','.join(COLS)}, (SELECT array_agg(hashint8extended(i, 0)) FROM generate_series(1::bigint, {n}) i) FROM (SELECT rollup(s) a FROM (SELECT hyperloglog({size}, i) s FROM generate_series(1::bigint, {n}) i GROUP BY i % {k}) x) y")[0]
            case = {"size": size, "n": n, "parts": k}
            out.trace(case, steps=n, state=(size, n, k))
            bad = judge(Model({int(x) & ((1 << 64) - 1) for x in r[-1].strip("{}").split(",")}, size), *r[:-1])
            if bad:
                out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of many parts", [(size, n, k) for size in (64, 1024, 16384) for n in (100, 3000, 40000) for k in (7, 60, 399)], work2, chunk=1)

    def work3(conn, part, out):
        for (sa, ta), (sb, tb) in part:
            for va, vb, two in (("generate_series(1,3)", "generate_series(2,5)", 1), ("generate_series(1,300)", "generate_series(2,5)", 0), ("generate_series(1,300)", "generate_series(2,700)", 0)):
                q = f"SELECT rollup(s) FROM (SELECT hyperloglog({sa},v::{ta}) s FROM {va} v UNION ALL SELECT hyperloglog({sb},v::{tb}) FROM {vb} v) x"
                r = conn.try_q(q)
                out.trace(q, state=q)
                if isinstance(r, Exception) != (sa != sb or ta != tb):
                    out.violation(q, "error" if (sa, ta) != (sb, tb) else "ok", repr(r)[:300])
    chk.explore("parameters", list(itertools.product([(64, "int"), (128, "int"), (64, "text"), (64, "bigint")], repeat=2)), work3)


if __name__ == "__main__":
    main(run_)
