"""C26: rollup and interpolation of heartbeat_agg give the live ranges of all the heartbeats."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit, set_partitions
from aggrun import run, Err
from hb import Agg, Cols, EP0, S
from c25 import T, AGG, AT, row


def run_(chk):
    chk.start_pg()
    cols = Cols((), full=False)
    full = Cols((0, 3), full=True)

    def texts(conn, keys):
        """keys: (start, duration, liveness, heartbeats)"""
        keys = sorted(keys, key=str)
        return {k: r[0] for k, r in zip(keys, run(conn, T, AGG, ["a::text"], [("[*", [row(h, *k[:3]) for h in k[3]]) for k in keys], AT))}

    def rollwork(cols):
        def work(conn, part, out):
            txt = texts(conn, {k for ks, _ in part for k in ks})
            res = run(conn, T, "rollup(heartbeatagg)", cols.sql, [(p, [[txt[k]] for k in ks]) for ks, p in part])
            for (ks, p), r in zip(part, res):
                case = {"parts": ks, "schedule": p}
                out.trace(case, steps=len(ks), state=str(case))
                L = ks[0][2]
                if any(k[2] != L for k in ks):
                    if not isinstance(r, Err):
                        out.violation(case, "error: different liveness", r)
                    continue
                st, en = min(k[0] for k in ks), max(k[0] + k[1] for k in ks)
                # a range goes on beyond the end of its own aggregate when the rollup covers more
                m = Agg(st, en, L, [(h, h + L) for k in ks for h in k[3]])
                bad = ("no error", "", repr(r)) if isinstance(r, Err) else cols.judge(m, r)
                if bad:
                    out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
        return work
    # the same range: every pair of sets of heartbeats
    n = chk.pick(7, 8)
    subs = [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
    for L in (1, 2):
        chk.explore(f"rollup of two summaries of one range, liveness {L}", [(((0, n + 1, L, a), (0, n + 1, L, b)), "[01") for a in subs for b in subs], rollwork(cols), chunk=400)
    s5 = [c for k in range(1, 6) for c in itertools.combinations((0, 2, 3, 5, 8), k)]
    chk.explore("rollup of three summaries of one range", [(tuple((0, 10, L, x) for x in t), "[012") for L in (1, 2) for t in itertools.product(s5, repeat=3)] if chk.thorough else
                [(tuple((0, 10, 1, x) for x in t), "[012") for t in itertools.product(s5[::2], repeat=3)], rollwork(cols), chunk=400)
    # windows of all placements, in every order, NULL parts, finalized in between
    wins = [(0, 4), (4, 4), (2, 4), (8, 4), (0, 12), (10, 6), (-3, 5)]
    cases = []
    for L in (1, 3):
        opts = []
        for st, ln in wins:
            opts.append([(st, ln, L, hs) for hs in ((st,), (st + ln - 1,), (st, st + ln - 1), (st + 1, st + 2))])
        for k in (2, 3):
            for ws in itertools.combinations(range(len(wins)), k):
                for ks in itertools.product(*(opts[w] if k == 2 else opts[w][::2] + opts[w][1:2] for w in ws)):
                    for perm in itertools.permutations(ks):
                        cases.append((perm, "[" + "".join("012"[i] + "f" * (k == 2) for i in range(k))))
    cases += [(((0, 5, 1, (1,)), (0, 5, 2, (1,))), "[01"), (((0, 5, 1, (1,)),), "[0"), (((0, 5, 3, (1, 2)),) * 3, "[012")]
    chk.explore("rollup of windows", cases, rollwork(cols), chunk=300)
    chk.explore("rollup of windows, all accessors", [c for c in cases if len(c[0]) == 2][::3], rollwork(full), chunk=40)

    # rollup of the windows of one stream = the one aggregate over all of it
    def rows_of(conn, part, out):
        for L, w, hs in part:
            q = ",".join(f"({h})" for h in hs)
            iv = "interval '1 s'"
            r = conn.q(f"WITH h(h) AS (VALUES {q}), p AS (SELECT heartbeat_agg('2000-01-01'::timestamptz + h * {iv}, '2000-01-01'::timestamptz + (h / {w}) * {w} * {iv}, '{w} s', '{L} s') s FROM h GROUP BY h / {w}) "
                       f"SELECT {','.join(cols.sql)} FROM (SELECT rollup(s) a FROM p) x")[0]
            out.trace((L, w, hs), steps=len(hs), state=str((L, w, hs)))
            st, en = min(hs) // w * w, max(hs) // w * w + w
            bad = cols.judge(Agg(st, en, L, [(h, h + L) for h in hs]), r)
            if bad:
                out.violation({"liveness": L, "window": w, "heartbeats": hs}, f"{bad[0]}: {bad[1]}", bad[2])
    g = (0, 1, 3, 4, 7, 8, 11)
    chk.explore("rollup of the windows of one stream", [(L, w, hs) for w in (4, 5, 12) for L in (1, 2, 3) if L < w for k in range(1, 8) for hs in itertools.combinations(g, k)], rows_of, chunk=100)

    # interpolation by the previous aggregate, then also of trimmed ones
    cases = []
    for L, PL in ((1, 1), (3, 3), (5, 5), (3, 5)):
        for pst, pln in ((-6, 6), (-8, 6), (-12, 11)):
            if pln <= PL:
                continue
            for ph in ((pst,), (pst + pln - 1,), (pst, pst + pln - 2), None):
                for ln in (6, 8):
                    for k in range(1, 4):
                        for hs in itertools.combinations((0, 1, 2, 4, 5), k):
                            cases.append((L, PL, pst, pln, ph, ln, hs))

    def work_int(conn, part, out):
        txt = texts(conn, {(0, ln, L, hs) for L, PL, pst, pln, ph, ln, hs in part} | {(pst, pln, PL, ph) for L, PL, pst, pln, ph, ln, hs in part if ph})
        vals = ",".join(f"({i},{lit(txt[0, ln, L, hs])}::heartbeatagg,{lit(txt[pst, pln, PL, ph]) if ph else 'NULL'}::heartbeatagg)" for i, (L, PL, pst, pln, ph, ln, hs) in enumerate(part))
        x = [EP0 % e for e in ("interpolated_uptime(b,p)", "(b -> interpolated_uptime(p))", "interpolated_downtime(b,p)", "(b -> interpolated_downtime(p))")] + ["((b -> interpolate(p)) = interpolate(b,p))::int"]
        for c, r in zip(part, conn.q(f"SELECT {','.join(cols.sql + x)} FROM (SELECT i, b, p, interpolate(b,p) a FROM (VALUES {vals}) v(i,b,p) OFFSET 0) z ORDER BY i")):
            L, PL, pst, pln, ph, ln, hs = c
            out.trace(c, state=str(c))
            m = Agg(0, ln, L, [(h, h + L) for h in hs] + ([(0, ph[-1] + L)] if ph else []))
            up = sum(b - a for a, b in m.live)
            bad = cols.judge(m, r)
            if not bad and r[len(cols.sql):] != [str(v) for v in (up, up, ln - up, ln - up, 1)]:
                bad = "interpolated_uptime/downtime, -> interpolate", (up, up, ln - up, ln - up, 1), r[len(cols.sql):]
            if bad:
                out.violation({"liveness": L, "previous": [pst, pln, ph], "duration": ln, "heartbeats": hs}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("interpolation", cases, work_int, chunk=100)

    # trimming an aggregate in two and putting it together again gives it back
    def work_cut(conn, part, out):
        txt = texts(conn, {(0, 12, L, hs) for L, hs, _, _ in part})
        vals = ",".join(f"({i},{lit(txt[0, 12, L, hs])}::heartbeatagg,{c},{d})" for i, (L, hs, c, d) in enumerate(part))
        t = "'2000-01-01'::timestamptz + %s * interval '1 s'"
        lo, mid, hi = "trim_to(b, NULL, c * interval '1 s')", f"trim_to(b, {t % 'c'}, (d - c) * interval '1 s')", f"trim_to(b, {t % 'd'})"
        forms = {"rollup": f"(SELECT rollup(x) FROM (VALUES ({lo}),({mid}),({hi})) y(x))", "rollup reversed": f"(SELECT rollup(x) FROM (VALUES ({hi}),({mid}),({lo})) y(x))",
                 "interpolate": f"interpolate({mid},{lo})"}
        for f, e in forms.items():
            for c, r in zip(part, conn.q(f"SELECT {','.join(cols.sql)} FROM (SELECT i, {e} a FROM (VALUES {vals}) v(i,b,c,d) OFFSET 0) z ORDER BY i")):
                L, hs, a, b = c
                out.trace((f,) + c, state=str((f, c)))
                m = Agg(0, 12, L, [(h, h + L) for h in hs])
                if f == "interpolate":
                    m = Agg(a, b, L, m.live)
                bad = cols.judge(m, r)
                if bad:
                    out.violation({"liveness": L, "heartbeats": hs, "cut at": (a, b), "form": f}, f"{bad[0]}: {bad[1]}", bad[2])
    g = (0, 1, 3, 4, 7, 8, 11)
    chk.explore("parts of an aggregate", [(L, hs, a, b) for L in (1, 2, 4) for k in range(1, 6) for hs in itertools.combinations(g, k) for a in range(1, 11) for b in range(a + 1, 12)], work_cut, chunk=300)

    # an aggregate that ends within the range another one, trimmed to what comes after, begins with
    def work_two(conn, part, out):
        txt = texts(conn, {(0, c, L, a) for L, c, a, b in part} | {(0, 12, L, b) for L, c, a, b in part})
        vals = ",".join(f"({i},{lit(txt[0, c, L, a])}::heartbeatagg,{lit(txt[0, 12, L, b])}::heartbeatagg,{c})" for i, (L, c, a, b) in enumerate(part))
        hi = "trim_to(b, '2000-01-01'::timestamptz + c * interval '1 s')"
        for f, e in (("first, rest", f"(SELECT rollup(x) FROM (VALUES (a),({hi})) y(x))"), ("rest, first", f"(SELECT rollup(x) FROM (VALUES ({hi}),(a)) y(x))")):
            for k, r in zip(part, conn.q(f"SELECT {','.join(cols.sql)} FROM (SELECT i, {e} a FROM (VALUES {vals}) v(i,a,b,c) OFFSET 0) z ORDER BY i")):
                L, c, ha, hb = k
                out.trace((f,) + k, state=str((f, k)))
                rest = Agg(c, 12, L, [(h, h + L) for h in hb])
                bad = cols.judge(Agg(0, 12, L, [(h, h + L) for h in ha] + rest.live), r)
                if bad:
                    out.violation({"liveness": L, "cut at": c, "first": ha, "rest of": hb, "form": f}, f"{bad[0]}: {bad[1]}", bad[2])
    g = (0, 1, 3, 4, 7, 8, 11)
    chk.explore("parts of two aggregates", [(L, c, a, b) for L in (2, 3, 5) for c in (4, 6, 8) if c > L for k in range(1, 4) for a in itertools.combinations(range(c), k)
                                            for m in range(1, 4) for b in itertools.combinations(g, m)], work_two, chunk=300)

    # one that ends, then two successive parts of another one (the first of which can be without heartbeats)
    def work_chain(conn, part, out):
        txt = texts(conn, {(0, c, L, a) for L, c, d, a, b in part} | {(0, 12, L, b) for L, c, d, a, b in part})
        vals = ",".join(f"({i},{lit(txt[0, c, L, a])}::heartbeatagg,{lit(txt[0, 12, L, b])}::heartbeatagg,{c},{d})" for i, (L, c, d, a, b) in enumerate(part))
        t = "'2000-01-01'::timestamptz + %s * interval '1 s'"
        mid, hi = f"trim_to(b, {t % 'c'}, d * interval '1 s')", f"trim_to(b, {t % '(c + d)'})"
        forms = {"interpolate(rest, interpolate(middle, first))": (f"interpolate({hi}, interpolate({mid}, a))", 1), "rollup": (f"(SELECT rollup(x) FROM (VALUES (a),({mid}),({hi})) y(x))", 0),
                 "rollup, middle last": (f"(SELECT rollup(x) FROM (VALUES (a),({hi}),({mid})) y(x))", 0), "rollup(interpolate(middle, first), rest)": (f"(SELECT rollup(x) FROM (VALUES (interpolate({mid}, a)),({hi})) y(x))", 2),
                 "interpolate(rest, rollup(first, middle))": (f"interpolate({hi}, (SELECT rollup(x) FROM (VALUES (a),({mid})) y(x)))", 1)}
        for f, (e, lo) in forms.items():
            for k, r in zip(part, conn.q(f"SELECT {','.join(cols.sql)} FROM (SELECT i, {e} a FROM (VALUES {vals}) v(i,a,b,c,d) OFFSET 0) z ORDER BY i")):
                L, c, d, ha, hb = k
                out.trace((f,) + k, state=str((f, k)))
                m = Agg(0, 12, L, [(h, h + L) for h in ha] + Agg(c, 12, L, [(h, h + L) for h in hb]).live)
                bad = cols.judge(Agg((0, c + d, c)[lo], 12, L, m.live), r)
                if bad:
                    out.violation({"liveness": L, "cut at": (c, c + d), "first": ha, "then": hb, "form": f}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("an aggregate and two parts of another one", [(L, c, d, a, b) for L in (2, 3, 5) for c in (4, 6) if c > L for d in (1, 2, 4) for k in range(1, 3) for a in itertools.combinations(range(c), k)
                                                             for m in range(1, 4) for b in itertools.combinations(g, m)], work_chain, chunk=300)

    # more heartbeats than are absorbed at once, followed by another aggregate
    big = [(n, o, step, L, lag) for n in (999, 1000, 1001, 2003, chk.pick(3500, 9000)) for o in range(6) for step, L in ((3, 1), (3, 4), (2, 7)) for lag in (0, 1, 3, 6, 9)]

    def order(n, o):
        i = list(range(n))
        return [i, i[::-1], i[::2] + i[1::2], i[2 * n // 3:] + i[:2 * n // 3], [x for b in range(7) for x in range(b, n, 7)], i[1:-1] + [n - 1, 0]][o]

    def work_big(conn, part, out):
        for n, o, step, L, lag in part:
            hs = [i * step for i in order(n, o)]
            ln = max(hs) + 1
            nxt = (ln, 20, L, (ln + lag, ln + 15))
            t = texts(conn, {nxt})[nxt]
            a = f"(SELECT heartbeat_agg('2000-01-01'::timestamptz + h * interval '1 s', '2000-01-01', '{ln} s', '{L} s' ORDER BY o) a FROM unnest('{{{','.join(map(str, hs))}}}'::int[]) WITH ORDINALITY x(h, o))"
            m = Agg(0, ln + 20, L, [(h, h + L) for h in hs] + [(h, h + L) for h in nxt[3]])
            tail = Agg(ln, ln + 20, L, m.live)
            for f, e, w in (("rollup", "(SELECT rollup(x) FROM (VALUES (a),(b)) y(x))", m), ("rollup reversed", "(SELECT rollup(x) FROM (VALUES (b),(a)) y(x))", m), ("interpolate", "interpolate(b, a)", tail)):
                r = conn.q(f"SELECT {','.join(cols.sql)} FROM (SELECT {e} a FROM (SELECT a, {lit(t)}::heartbeatagg b FROM {a} x OFFSET 0) z OFFSET 0) z")[0]
                case = {"n": n, "order": o, "step": step, "liveness": L, "next": nxt, "form": f}
                out.trace(case, steps=n, state=str(case))
                bad = cols.judge(w, r)
                if bad:
                    out.violation(case, f"{bad[0]}: {str(bad[1])[-400:]}", str(bad[2])[-400:])
    chk.explore("many heartbeats, then another aggregate", big, work_big, chunk=6)


if __name__ == "__main__":
    main(run_)
