"""C17: hyperloglog / approx_count_distinct: exact set semantics and estimates of the HLL++ algorithm."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
from aggrun import run, Err
from hll import Model, judge, hashes, COLS

T = "hyperloglog"
TYPES = {
    "bigint": ["0", "1", "-1", "9223372036854775807"],
    "int": ["5", "6", "-7"],
    "float8": ["0", "-0", "1.5", "NaN"],
    "text": ["", "a", "A", "a " + "x" * 200],
    "timestamptz": ["2020-01-01 00:00:00+00", "2020-01-01 01:00:00+01", "infinity"],
    "uuid": ["00000000-0000-0000-0000-000000000000", "a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "A0EEBC99-9C0B-4EF8-BB6D-6BB9BD380A11"],
    "numeric": ["1", "1.000", "1e50", "-2.5"],
    "boolean": ["true", "false"],
    "int[]": ["{}", "{1,2}", "{1,3}"],
    "interval": ["1 day", "24 hours", "1 mon"],
}
SER = {
    "int": "i::int", "spread": "(i * 7919 % 1000003)::bigint", "dups": "(i / 3)::bigint", "text": "('v' || i)::text", "float": "(i * 0.37)::float8",
}
SHASH = {"int": "hashint4extended", "spread": "hashint8extended", "dups": "hashint8extended", "text": "hashtextextended", "float": "hashfloat8extended"}


def run_(chk):
    for typ, vals in TYPES.items():
        cs = [(size, s) for size in (16, 64) for n in range(0, chk.pick(5, 6)) for s in itertools.product(vals + [None], repeat=n)]
        hs = {}

        def work(conn, part, out):
            if not hs:
                hs.update(zip(vals, hashes(conn, typ, vals)))
            for agg, two in (("hyperloglog(int,anyelement)", 1), ("approx_count_distinct(anyelement)", 0)):
                items = [("[*", [((size, v) if two else (v,)) for v in s]) for size, s in part]
                res = run(conn, T, agg, COLS, items, (["int", typ] if two else [typ]))
                for (size, s), r in zip(part, res):
                    case = {"agg": agg, "type": typ, "size": size if two else None, "values": s}
                    out.trace(case, steps=len(s) + 1, state=(agg, typ, size, s))
                    if isinstance(r, Err):
                        out.violation(case, "no error", repr(r))
                        continue
                    hv = [hs[v] for v in s if v is not None]
                    if not hv:
                        if any(x is not None for x in r):
                            out.violation(case, "NULL", r)
                        continue
                    bad = judge(Model(hv, size if two else 32768), *r)
                    if bad is None and int(r[1]) != len(set(hv)) and len(set(hv)) <= 2:
                        bad = ("distinct_count of few values", len(set(hv)), r[1])
                    if bad:
                        out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
        chk.explore(f"{typ}: all sequences", cs, work)

    ser = [(k, n, size, o) for k in SER for n in chk.pick((3, 6, 10, 17, 40, 60, 100, 230, 400, 700, 1500, 3000, 4500, 20000), (2, 3, 4, 6, 8, 10, 13, 17, 25, 40, 60, 100, 150, 250, 400, 1000, 3000, 20000, 100000))
           for size in chk.pick((16, 17, 64, 100, 1024, 16384), (16, 17, 32, 64, 100, 128, 256, 512, 1024, 4096, 16384, 65536, 262144)) for o in ("i", "-i", "i * 7919 % 10007")]

    def work2(conn, part, out):
        for k, n, size, o in part:
            # an aggregate's ORDER BY fixes the order of its input
            r, agg2 = conn.q(f"SELECT {','.join(COLS)}, (SELECT array_agg(DISTINCT {SHASH[k]}({SER[k]}, 0)) FROM generate_series(1::bigint, {n}) i) FROM (SELECT hyperloglog({size}, {SER[k]} ORDER BY {o}, i) a FROM generate_series(1::bigint, {n}) i) s")[0], None
            hv = [int(x) & ((1 << 64) - 1) for x in r[-1].strip("{}").split(",")]
            case = {"series": SER[k], "n": n, "size": size, "order": o}
            out.trace(case, steps=n, state=(k, n, size, o))
            m = Model(hv, size)
            bad = judge(m, *r[:-1])
            if not bad and abs(int(r[1]) - len(hv)) > 4 * m.stderror() * len(hv) + 3:
                bad = ("accuracy", len(hv), r[1])
            if bad:
                out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("long series", ser, work2, chunk=6)

    def work3(conn, part, out):
        for q, want in part:
            out.trace(q, state=q)
            r = conn.try_q(q)
            got = "error" if isinstance(r, Exception) else r[0][0]
            if str(got) != want:
                out.violation(q, want, repr(r)[:200])
    conn = chk.start_pg().conn()
    conn.q("CREATE COLLATION mc_ci (provider=icu, locale='und-u-ks-level2', deterministic=false)")
    V = "('a'),('A'),('b'),('a')"
    chk.explore("arguments and collations", [
        (f"SELECT distinct_count(hyperloglog({n}, v)) FROM (VALUES (1),(2),(1)) v(v)", w)
        for n, w in ((16, "2"), (17, "2"), (262144, "2"), (262145, "error"), (8, "error"), (0, "error"), (-5, "error"), (1, "error"), (9, "2"))]
        + [(f"SELECT distinct_count(hyperloglog(64, v COLLATE mc_ci)) FROM (VALUES {V}) v(v)", "2"),
           (f"SELECT distinct_count(hyperloglog(64, v)) FROM (VALUES {V}) v(v)", "3"),
           (f"SELECT distinct_count(approx_count_distinct(v COLLATE mc_ci)) FROM (VALUES {V}) v(v)", "2"),
           (f"SELECT distinct_count(rollup(a)) FROM (SELECT hyperloglog(64, v COLLATE mc_ci) a FROM (VALUES {V}) v(v) GROUP BY v) s", "2"),
           (f"SELECT distinct_count(mcrun(NULL::hyperloglog, 'hyperloglog(int,anyelement)', '[0[1s+[2s+', array[['64','a'],['64','A'],['64','a']], array['int','text']::regtype[]::oid[]))", "2"),
           ("SELECT hyperloglog(64, v) FROM (VALUES (point(1,2))) v(v)", "error")], work3)


if __name__ == "__main__":
    main(run_)
