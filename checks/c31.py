"""C31: a timevector holds exactly its rows in arrival order, with truthful flags, however it was put together;
unnest, text forms and asof read back just that."""
import os, sys, itertools, json, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit, fl
from aggrun import run, Err
import partial, tv as V

S = 1_000_000
T, AGG, ROLL = V.T, "timevector(timestamptz,float8)", "rollup(timevector_tstz_f64)"
UN = "(SELECT string_agg((extract(epoch from time)*1000000)::int8 - 946684800000000 || ' ' || value, '|' ORDER BY o) FROM %s WITH ORDINALITY y(time, value, o))"
COLS = ["a::text", UN % "unnest(a)", f"a::text::{T}::text",
        "(SELECT string_agg(x::text, '|' ORDER BY o) FROM (SELECT row_number() OVER () o, x FROM (SELECT a -> unnest() x OFFSET 0) z) y) IS NOT DISTINCT FROM (SELECT string_agg((t,v)::text, '|' ORDER BY o) FROM unnest(a) WITH ORDINALITY y(t, v, o))"]


def judge(rows, r):
    pts = [(t, v) for t, v in rows if t is not None]
    if isinstance(r, Err):
        return "no error", "", repr(r)
    if not pts:
        return None if r[0] is None else ("value", None, r[0])
    if r[0] is None:
        return "value", pts, None
    w = V.compare(pts, V.parse(r[0]), flags="exact")
    if w:
        return "timevector", w, r[0]
    got = [(int(p.split(" ")[0]), float(p.split(" ")[1])) for p in (r[1] or "").split("|") if p]
    if len(got) != len(pts) or any(g[0] != p[0] or not V.same(g[1], math.nan if p[1] is None else p[1]) for g, p in zip(got, pts)):
        return "unnest", pts, r[1]
    if r[2] != r[0]:
        return "text round trip", r[0], r[2]
    if r[3] != "t":
        return "-> unnest()", "the rows of unnest()", r[3]


def run_(chk):
    chk.start_pg()
    row = lambda v: (ts(v[0]) if v[0] is not None else None, None if v[1] is None else fl(v[1]))
    al1 = [(0, 1.5), (S, None), (2 * S, -0.25), (None, 4.0), (S, math.inf)]
    al2 = [(5 * S, 1e300), (5 * S, math.nan), (-3, None), (7, 0.0)]
    partial.explore(chk, AGG, T, AGG, ROLL, COLS, [al1, al2], row, judge, chk.pick(4, 5), order_sensitive=True, n4=3, roll_max=4)

    # null bits over byte borders: blocks of 1..17 points, nulls in every single place and in patterns
    cases = []
    for total in (7, 8, 9, 15, 16, 17, 25):
        for cut in sorted({1, 3, 7, 8, 9, total // 2, total - 1}):
            if 0 < cut < total:
                for pat in [1 << i for i in range(total)] + [0, (1 << total) - 1, 0x155555555 & ((1 << total) - 1), (1 << total) - (1 << (total - cut))]:
                    cases.append((total, cut, pat))

    def work_n(conn, part, out):
        q = []
        for i, (n, cut, pat) in enumerate(part):
            q.append(f"({i},{n},{cut},{pat}::int8)")
        gen = "SELECT timevector('2000-01-01'::timestamptz + j * interval '1 s', CASE WHEN (pat >> j) & 1 = 0 THEN j::float8 END ORDER BY j) FROM generate_series(%s) j"
        A = f"({gen % '0, cut - 1'})"
        B = f"({gen % 'cut, n - 1'})"
        forms = {"rollup": f"(SELECT rollup(p ORDER BY o) FROM (VALUES (1, {A}), (2, {B})) _(o, p))", "whole": f"({gen % '0, n - 1'})",
                 "three": f"(SELECT rollup(p ORDER BY o) FROM (VALUES (1, {A}), (2, NULL), (3, {B}), (4, {A})) _(o, p))",
                 "backwards": f"(SELECT rollup(p ORDER BY o) FROM (VALUES (2, {A}), (1, {B})) _(o, p))"}
        for name, form in forms.items():
            for r in conn.q(f"SELECT i, {','.join(COLS)} FROM (SELECT i, {form} a FROM (VALUES {','.join(q)}) _(i, n, cut, pat) OFFSET 0) z"):
                n, cut, pat = part[int(r[0])]
                pt = [(j * S, None if pat >> j & 1 else float(j)) for j in range(n)]
                pt = {"rollup": pt, "whole": pt, "three": pt + pt[:cut], "backwards": pt[cut:] + pt[:cut]}[name]
                case = {"form": name, "points": n, "cut": cut, "nulls": bin(pat)}
                out.trace(case, steps=n, state=(name, n, cut, pat))
                bad = judge(pt, r[1:])
                if bad:
                    out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("null bits across byte borders", cases, work_n, chunk=60)
    # window frames
    def work_w(conn, part, out):
        for rows in part:
            v = ",".join(f"({i},{lit(row(x)[0])}::timestamptz,{lit(row(x)[1])}::float8)" for i, x in enumerate(rows))
            for frame, lo in (("ROWS UNBOUNDED PRECEDING", 99), ("ROWS 1 PRECEDING", 1)):
                for agg, src in (("timevector(t, v)", f"(SELECT * FROM (VALUES {v}) _(o,t,v))"), ("rollup(p)", f"(SELECT o, timevector(t, v) p FROM (VALUES {v}) _(o,t,v) GROUP BY 1)")):
                    res = conn.q(f"SELECT {','.join(COLS)} FROM (SELECT o, {agg} OVER (ORDER BY o {frame}) a FROM {src} s) z ORDER BY o")
                    for i, r in enumerate(res):
                        case = {"rows": rows, "agg": agg, "frame": frame, "row": i}
                        out.trace(case, state=(rows, agg, frame, i))
                        bad = judge(rows[max(0, i - lo):i + 1], r)
                        if bad:
                            out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("window frames", list(itertools.product(al1, repeat=3)) + list(itertools.product(al2, repeat=3)), work_w, chunk=20)

    # to_plotly, to_text
    vals = [0.0, -1.5, None, 1e21, 5e-324, math.inf, math.nan, 123456789.125]
    cases = [tuple((S * i * 1001 // 7, v) for i, v in enumerate(c)) for n in (1, 2, 3) for c in itertools.product(vals, repeat=n)]

    def work_t(conn, part, out):
        fs = {"plotly": "toolkit_experimental.to_plotly(a)", "pairs": "toolkit_experimental.to_text(a, '{{TIMEVALS}}')",
              "json": "toolkit_experimental.to_text(a, '[{{ TIMES | json_encode() | safe }},{{ VALUES | json_encode() | safe }}]')"}
        for pts in part:
            for f, e in fs.items():
                r = conn.q(f"SELECT mctry({lit(f'SELECT {e} FROM (SELECT {V.sql(pts)} a) z')})")[0][0]
                case = {"to": f, "points": pts}
                out.trace(case, steps=len(pts), state=(f, pts))
                if any(v is not None and not math.isfinite(v) for _, v in pts):
                    if not r.startswith("ERR"):
                        out.violation(case, "an error: values must be finite", r)
                    continue
                try:
                    j = json.loads(r)
                    if f == "pairs":
                        t, v = [x["time"] for x in j], [x["val"] for x in j]
                    elif f == "plotly":
                        t, v = j["times"], j["vals"]
                        assert set(j) == {"times", "vals"}
                    else:
                        t, v = j
                    got = [(V.t_us(a), None if b in (None, "null") else float(b)) for a, b in zip(t, v)]
                    ok = len(t) == len(v) and got == list(pts)
                except Exception as e:
                    ok, got = False, r
                if not ok:
                    out.violation(case, list(pts), r)
    chk.explore("to_plotly and to_text", cases, work_t, chunk=40)

    # asof: every pair of short sorted series
    tt = (0, S, 2 * S, 3 * S)
    ser = [c for n in (1, 2, 3) for c in itertools.combinations_with_replacement(tt, n)]
    cases = list(itertools.product(ser, ser))

    def work_a(conn, part, out):
        for a, b in part:
            A = [(t, 10.0 + i) for i, t in enumerate(a)]
            B = [(t + (S // 2 if len(b) == 2 and len(a) == 3 else 0), 20.0 + i) for i, t in enumerate(b)]
            r = conn.q(f"SELECT (x).value1::text, (x).value2::text, (extract(epoch from (x).time)*1000000)::int8 - 946684800000000 FROM (SELECT {V.sql(A)} -> toolkit_experimental.asof({V.sql(B)}) x OFFSET 0) z")
            got = [(None if x is None else float(x), float(y), int(t)) for x, y, t in r]
            want = [(next((v for u, v in reversed(A) if u <= t), None), y, t) for t, y in B]
            case = {"from": A, "asof": B}
            out.trace(case, steps=len(A) + len(B), state=(a, b))
            if got != want:
                out.violation(case, want, got)
    chk.explore("asof", cases, work_a, chunk=50)

    def work_e(conn, part, out):
        for q in part:
            g = conn.q(f"SELECT mctry({lit(q)})")[0][0]
            out.trace(q, state=q)
            if not (g or "").startswith("ERR"):
                out.violation(q, "an error", g)
    e, f = V.sql([]), V.sql([(0, 1.0)])
    chk.explore("asof without points", [f"SELECT ({x} -> toolkit_experimental.asof({y}))::text" for x, y in ((e, f), (f, e), (e, e))], work_e)
    # nothing: no rows
    def work_z(conn, part, out):
        for q in part:
            r = conn.q(q)[0][0]
            out.trace(q, state=q)
            if r is not None:
                out.violation(q, None, r)
    chk.explore("no rows", ["SELECT timevector(t, v)::text FROM (VALUES (NULL::timestamptz, 1.0)) _(t, v)", "SELECT timevector(t, v)::text FROM (VALUES (NULL::timestamptz, 1.0)) _(t, v) WHERE false",
                            "SELECT rollup(a)::text FROM (VALUES (NULL::timevector_tstz_f64)) _(a)"], work_z)


if __name__ == "__main__":
    main(run_)
