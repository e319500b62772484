"""C29: min_n_by / max_n_by return the n smallest / largest values, each with the data of its own row."""
import os, sys, itertools, math
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit, set_partitions
from aggrun import run, Err
import partial

INF = math.inf
KINDS = {
    "float": ("float8", "floats", lambda x: x, [2.5, 0.0, 7.0, -INF, INF, -3.0]),
    "int": ("bigint", "ints", str, [5, 0, -7, -(1 << 63), (1 << 63) - 1, 3]),
    "time": ("timestamptz", "times", ts, [0, 1000000, -5, 86400000000, 1 << 50, 7]),
}
# the i-th datum of each type (all different)
DATA = {
    "int": lambda i: str(i * 7 - 3), "smallint": lambda i: str(i), "bigint": lambda i: str((1 << 40) * (i - 2)), "bool": lambda i: "ft"[i % 2],
    "float8": lambda i: ["0.5", "-0", "NaN", "Infinity", "1e300", "3", "4", "5"][i % 8], "float4": lambda i: str(i / 2),
    "text": lambda i: ["", "a", "ü\\\"(),", "x" * 200, "y" * 3000, "b", "c'c", "\t"][i % 8], "numeric": lambda i: ["0", "1.5", "-12345678901234567890.123", "NaN", "1e100", "7", "8.00", "9"][i % 8],
    "interval": lambda i: f"{i} mons {i} days 00:00:0{i % 8}", "uuid": lambda i: "%032x" % (i * 1234567), "name": lambda i: "n" * (i % 60), "int[]": lambda i: "{%s}" % ",".join(map(str, range(i))),
    "text[]": lambda i: '{a,NULL,"%d"}' % i, "jsonb": lambda i: '{"k": [%d, null]}' % i, "timestamptz": lambda i: ts(i), "\"char\"": lambda i: "abcdefgh"[i % 8], "mcpair": lambda i: '(%d,"x, %d")' % (i, i), "bytea": lambda i: "\\x00%02x" % i,
    "point": lambda i: f"({i},{-i})", "macaddr": lambda i: "08:00:2b:01:02:%02x" % i,
}


def run_(chk):
    chk.start_pg()
    conn = chk.cl.conn()
    try:
        conn.q("CREATE TYPE mcpair AS (a int, b text)")
    except Exception:
        pass
    canon = {(d, i): conn.q(f"SELECT ({lit(f(i))}::{d})::text")[0][0] for d, f in DATA.items() for i in range(8)}
    vcan = {(k, v): conn.q(f"SELECT ({lit(KINDS[k][2](v))}::{KINDS[k][0]})::text")[0][0] for k in KINDS for v in KINDS[k][3]}
    conn.close() if hasattr(conn, "close") else None

    def cols(T, d):
        return [f"(SELECT json_agg(json_build_array(v::text, d::text) ORDER BY o)::text FROM into_values(a, NULL::{d}) WITH ORDINALITY y(v,d,o))",
                f"(a::text = (a::text::{T})::text)::text",
                f"(SELECT json_agg(json_build_array(v::text, d::text) ORDER BY o)::text FROM into_values(a::text::{T}, NULL::{d}) WITH ORDINALITY y(v,d,o))"]

    def judge(kind, fn, d, n, rows, r):
        """rows: list of (value, datum index)"""
        import json
        if isinstance(r, Err):
            return "no error", "", repr(r)
        got = json.loads(r[0]) if r[0] else []
        top = sorted((v for v, _ in rows), reverse=fn == "max")[:n]
        if [g[0] for g in got] != [vcan[kind, v] for v in top]:
            return "values", [vcan[kind, v] for v in top], got
        have = Counter((vcan[kind, v], canon[d, i]) for v, i in rows)
        extra = Counter(map(tuple, got)) - have
        if extra:
            return "each value with the data of its row", sorted(have.elements()), got
        if r[1] != "true" or r[0] != r[2]:
            return "text form reads back", r[0], r[1:]

    def mkrow(kind, d, n):
        return lambda x: (KINDS[kind][2](x[0]), DATA[d](x[1]), n)
    cases = []
    for kind in KINDS:
        vals = KINDS[kind][3]
        for fn in ("min", "max"):
            for d in DATA:
                for n in (1, 2, 3):
                    for m in (1, 2, 3, 4, 5):
                        for p in [tuple(range(m)), tuple(range(m))[::-1], tuple((i * 2 + 1) % m if m % 2 else i for i in range(m))]:
                            cases.append((kind, fn, d, n, tuple((vals[i], (i * 3 + 1) % 8) for i in p)))
            for n in (1, 2, 3):
                for d in ("int", "text"):
                    for m in range(1, chk.pick(5, 6)):
                        cases += [(kind, fn, d, n, tuple((v, i) for i, v in enumerate(vs))) for vs in itertools.product(vals[:3], repeat=m)]
            cases += [(kind, fn, "text", n, tuple((v, i) for i, v in enumerate(p))) for n in (2, 4, 7) for p in itertools.permutations(vals, 6 if chk.thorough else 5)]
    cases = sorted(set(cases), key=lambda c: (c[0], c[1], c[2]))

    def work(conn, part, out):
        for (kind, fn, d), grp in itertools.groupby(part, key=lambda c: c[:3]):
            grp = list(grp)
            T = f"{fn}by{KINDS[kind][1]}"
            progs = ["[*", "[" + "".join(f"{i}f" for i in range(8))]
            items = [(c, p) for c in grp for p in ("[*", "[" + "".join("01234567"[i] + "f" for i in range(len(c[4]))))]
            res = run(conn, T, f"{fn}_n_by({KINDS[kind][0]},anyelement,bigint)", cols(T, d), [(p, [mkrow(kind, d, c[3])(x) for x in c[4]]) for c, p in items], [KINDS[kind][0], d, "bigint"])
            for (c, p), r in zip(items, res):
                out.trace({"agg": T, "data": d, "n": c[3], "rows": c[4], "schedule": p}, steps=len(p), state=(c, p))
                bad = judge(kind, fn, d, c[3], c[4], r)
                if bad:
                    out.violation({"agg": T, "data": d, "n": c[3], "rows": c[4], "schedule": p}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("all sequences, finalized once or after every row", cases, work, chunk=250)

    # rollup of every partition in every order of the parts
    cases = []
    for kind in KINDS:
        vals = KINDS[kind][3]
        for fn in ("min", "max"):
            for d in ("int", "text", "interval", "mcpair"):
                for n in (1, 2, 3, 5):
                    for m in range(1, 5):
                        for blocks in set_partitions(range(m)):
                            for order in itertools.permutations(blocks):
                                words = [tuple(range(m)), tuple(range(m))[::-1], tuple(0 for _ in range(m)), tuple(i % 2 for i in range(m)), tuple((i * 3 + 1) % 4 for i in range(m))]
                                if d == "int" and n == 2 and m <= 3:
                                    words = list(itertools.product(range(3), repeat=m))
                                for w in words:
                                    cases.append((kind, fn, d, n, tuple((vals[w[i]], i) for i in range(m)), tuple(map(tuple, order))))

    def work2(conn, part, out):
        for (kind, fn, d), grp in itertools.groupby(part, key=lambda c: c[:3]):
            grp = list(grp)
            T = f"{fn}by{KINDS[kind][1]}"
            todo = [(ci, b) for ci, c in enumerate(grp) for b in c[5]]
            leafs = run(conn, T, f"{fn}_n_by({KINDS[kind][0]},anyelement,bigint)", ["a::text"], [("[*", [mkrow(kind, d, grp[ci][3])(grp[ci][4][i]) for i in b]) for ci, b in todo], [KINDS[kind][0], d, "bigint"])
            per = {}
            for (ci, b), r in zip(todo, leafs):
                per.setdefault(ci, []).append([r[0]])
            items = [(ci, p) for ci in range(len(grp)) for p in ("[*", "[" + "".join("01234567"[i] + "f" for i in range(len(per[ci]))))]
            for (ci, p), r in zip(items, run(conn, T, f"rollup({T})", cols(T, d), [(p, per[ci]) for ci, p in items])):
                c = grp[ci]
                out.trace({"agg": T, "data": d, "n": c[3], "rows": c[4], "rollup of": c[5]}, steps=len(p), state=("r", c, p))
                bad = judge(kind, fn, d, c[3], c[4], r)
                if bad:
                    out.violation({"agg": T, "data": d, "n": c[3], "rows": c[4], "rollup of": c[5]}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of all partitions in all orders", cases, work2, chunk=250)

    # replacement in full states frees the replaced datum: long runs, window frames, GROUP BY with many groups
    def work3(conn, part, out):
        for kind, fn, d, n, m, k in part:
            sq, _, tx, _ = KINDS[kind]
            val = {"float": "v::float8", "int": "v::bigint", "time": "'2000-01-01'::timestamptz + v * interval '1 s'"}[kind]
            T = f"{fn}by{KINDS[kind][1]}"
            dat = {"text": "repeat(v::text, 1 + v % 7)", "int": "v", "numeric": "v::numeric / 3", "int[]": "ARRAY[v, v + 1]"}[d]
            q = f"""WITH t AS (SELECT i, (i * {k} % {m})::int v FROM generate_series(0, {m - 1}) i),
              a AS (SELECT i, {fn}_n_by({val}, {dat}, {n}) OVER (ORDER BY i ROWS BETWEEN 9 PRECEDING AND CURRENT ROW) w, {fn}_n_by({val}, {dat}, {n}) OVER (ORDER BY i) u FROM t),
              e AS (SELECT i, (SELECT string_agg(x::text, ';' ORDER BY r) FROM (SELECT ({val}, {dat}) x, row_number() OVER (ORDER BY v {'DESC' if fn == 'max' else 'ASC'}) r FROM t t2 WHERE t2.i BETWEEN t.i - 9 AND t.i) y WHERE r <= {n}) ew,
                    (SELECT string_agg(x::text, ';' ORDER BY r) FROM (SELECT ({val}, {dat}) x, row_number() OVER (ORDER BY v {'DESC' if fn == 'max' else 'ASC'}) r FROM t t2 WHERE t2.i <= t.i) y WHERE r <= {n}) eu FROM t)
              SELECT i, ew, eu, gw, gu FROM (SELECT i, ew, eu, (SELECT string_agg((v, dd)::text, ';' ORDER BY o) FROM into_values(w, NULL::{d}) WITH ORDINALITY z(v, dd, o)) gw,
                    (SELECT string_agg((v, dd)::text, ';' ORDER BY o) FROM into_values(u, NULL::{d}) WITH ORDINALITY z(v, dd, o)) gu FROM a JOIN e USING (i)) s WHERE (ew, eu) IS DISTINCT FROM (gw, gu) LIMIT 1"""
            rows = conn.q(q)
            out.trace({"agg": T, "data": d, "n": n, "rows": m}, steps=m, state=(kind, fn, d, n, m, k))
            if rows:
                out.violation({"agg": T, "data": d, "n": n, "m": m, "stride": k, "row": rows[0][0]}, rows[0][1:3], rows[0][3:])
    chk.explore("frames over long series", [(kind, fn, d, n, m, k) for kind in KINDS for fn in ("min", "max") for d in ("text", "int", "numeric", "int[]") for n in (1, 3, 8) for m, k in ((37, 11), (101, 30))], work3, chunk=4)

    # into_values insists on the stored type
    def work4(conn, part, out):
        for fn, kind, d1, d2 in part:
            q = f"SELECT count(*) FROM into_values((SELECT {fn}_n_by({lit(KINDS[kind][2](KINDS[kind][3][0]))}::{KINDS[kind][0]}, {lit(DATA[d1](1))}::{d1}, 2)), NULL::{d2})"
            g = conn.q(f"SELECT mctry({lit(q)})")[0][0]
            w = "1" if d1 == d2 else "ERR"
            out.trace(q, state=q)
            if (g if not g.startswith("ERR") else "ERR") != w:
                out.violation(q, w, g)
    ds = ("int", "bigint", "text", "name", "interval", "bool", "float8", "mcpair")
    chk.explore("stored and requested types", [(fn, kind, a, b) for fn in ("min", "max") for kind in KINDS for a in ds for b in ds], work4, chunk=40)


if __name__ == "__main__":
    main(run_)
