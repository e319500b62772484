"""C28: min_n / max_n hold exactly the n smallest / largest values, on every schedule, frame and rollup."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit
from aggrun import run, Err
import partial

INF = math.inf
KINDS = {  # type: (sql type, catalog type suffix, text of model value, values)
    "float": ("float8", "floats", lambda x: x, [2.5, -INF, 0.0, 7.0, INF, -3.0, 1e300, 5e-324]),
    "int": ("bigint", "ints", lambda x: str(x), [5, -(1 << 63), 0, (1 << 63) - 1, -7, 3, 100, 1]),
    "time": ("timestamptz", "times", lambda x: {"-": "-infinity", "+": "infinity"}.get(x) or ts(x), [0, 1, "-", 86400000000, "+", -5, 1 << 50, 7]),
}


def key(x):
    return {"-": -INF, "+": INF}.get(x, x)


def cols(kind):
    sq = KINDS[kind][0]
    v = {"float": "x::text", "int": "x::text", "time": "x::text"}[kind]
    ag = f"(SELECT string_agg({v}, '|' ORDER BY o) FROM %s WITH ORDINALITY y(x, o))"
    return [ag % "unnest(into_array(a))", ag % "into_values(a)",
            f"((a -> into_array()) IS NOT DISTINCT FROM into_array(a) AND ARRAY(SELECT x FROM (SELECT a -> into_values() x OFFSET 0) y) = into_array(a))",
            "(a::text = (a::text::min%s)::text)"]


def run_(chk):
    chk.start_pg()
    for kind, (sq, suffix, txt, vals) in KINDS.items():
        # canonical text of the values
        conn = chk.cl.conn()
        canon = {v: conn.q(f"SELECT ({lit(txt(v)) if txt(v) is not None else 'NULL'}::{sq})::text")[0][0] for v in vals}
        for fn in ("min", "max"):
            T, AGG, ROLL = f"{fn}{suffix}", f"{fn}_n({sq},bigint)", f"rollup({fn}{suffix})"
            COLS = cols(kind)
            COLS[3] = f"(a::text = (a::text::{T})::text)"

            def expect(vs, n, fn=fn, canon=canon):
                return "|".join(canon[v] for v in sorted(vs, key=key, reverse=fn == "max")[:n])

            def judge(vs, n, r, expect=expect):
                if isinstance(r, Err):
                    return "no error", "", repr(r)
                w = expect(vs, n)
                if [r[0], r[1]] != [w, w]:
                    return "values", w, r[:2]
                if r[2] != "t" or r[3] != "t":
                    return "arrow and text forms", "t", r[2:]
            seqs = [(n, s) for n in (1, 2, 3, 4) for m in range(1, chk.pick(5, 6)) for s in itertools.product(vals[:4] if m > 2 else vals, repeat=m)]
            seqs += [(n, p) for n in (2, 3, 5) for p in itertools.permutations(vals[2:7], 5)]
            seqs += [(n, tuple(vals[i * k % 8] for i in range(m))) for n in (1, 2, 5, 7, 8, 50) for k in (1, 3, 5, 7) for m in (8, 17, 40)]

            def work(conn, part, out):
                for (n, s), r in zip(part, run(conn, T, AGG, COLS, [("[*", [(txt(v), n) for v in s]) for n, s in part], [sq, "bigint"])):
                    out.trace({"agg": AGG, "n": n, "rows": s}, steps=len(s), state=(AGG, n, s))
                    bad = judge(s, n, r)
                    if bad:
                        out.violation({"agg": AGG, "n": n, "rows": s}, f"{bad[0]}: {bad[1]}", bad[2])
            chk.explore(AGG + ": all sequences", seqs, work)
            for n, al in ((2, vals[:3]), (3, vals[3:6])):
                partial.explore(chk, f"{AGG} n={n}", T, AGG, ROLL, COLS, [al], lambda v, n=n, txt=txt: (txt(v), n), lambda vs, r, n=n, judge=judge: judge(vs, n, r), chk.pick(3 if n == 2 and kind != 'float' else 4, 5), argtypes=[sq, "bigint"], n4=2, roll_max=chk.pick(3, 4))

            # window frames and rollups as plain SQL; large n (never full); many parts
            def work_w(conn, part, out):
                for n, s in part:
                    v = ",".join(f"({i},{lit(txt(x))}::{sq})" for i, x in enumerate(s))
                    for frame, lo in (("ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW", 99), ("ROWS BETWEEN 1 PRECEDING AND CURRENT ROW", 1)):
                        rows = conn.q(f"SELECT {','.join(COLS)} FROM (SELECT o, {fn}_n(v, {n}) OVER (ORDER BY o {frame}) a FROM (VALUES {v}) x(o,v)) z ORDER BY o")
                        out.trace({"agg": AGG, "n": n, "rows": s, "frame": frame}, steps=len(s), state=(AGG, "w", n, s, lo))
                        for i, r in enumerate(rows):
                            bad = judge(s[max(0, i - lo):i + 1], n, r)
                            if bad:
                                out.violation({"agg": AGG, "n": n, "rows": s, "frame": frame, "row": i}, f"{bad[0]}: {bad[1]}", bad[2])
                    for k in (1, 2, 3):
                        r = conn.q(f"SELECT {','.join(COLS)} FROM (SELECT rollup(p ORDER BY g) a FROM (SELECT o/{k} g, {fn}_n(v, {n}) p FROM (VALUES {v}) x(o,v) GROUP BY 1) y) z")[0]
                        bad = judge(s, n, r)
                        if bad:
                            out.violation({"agg": AGG, "n": n, "rows": s, "rollup of blocks": k}, f"{bad[0]}: {bad[1]}", bad[2])
            chk.explore(AGG + ": frames", [(n, s) for n in (1, 2, 3, 10) for s in itertools.permutations(vals[:6], 4)], work_w, chunk=20)
            # no rows; values that can not be ordered
            def work_e(conn, part, out):
                for q, w in part:
                    g = conn.q(q)[0][0]
                    out.trace(q, state=q)
                    g = "ERR" if g and g.startswith("ERR") else g
                    if g != w:
                        out.violation(q, w, g)
            none = [(f"SELECT {fn}_n(x,2)::text FROM (SELECT 1::{'bigint' if kind == 'int' else 'float8'} LIMIT 0) t(y), LATERAL (SELECT NULL::{sq}) u(x)", None),
                    (f"SELECT into_array({fn}_n(NULL::{sq}, 2))::text WHERE false", None)][:1]
            if kind == "float":
                none.append((f"SELECT mctry('SELECT {fn}_n(x,2)::text FROM (VALUES (1.0),(''NaN''::float8)) t(x)')", "ERR"))
            chk.explore(AGG + ": no rows", none, work_e)
        conn.close() if hasattr(conn, "close") else None


if __name__ == "__main__":
    main(run_)
