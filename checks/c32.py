"""C32: each pipeline element does what it says to every point of a timevector and refuses what it cannot work on."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import pipe as P, tv as V

S = P.S
TV = "public.timevector_tstz_f64"


def show(s):
    return [(t / S, "null" if z else v) for t, v, z in s]


def series(chk):
    out = [()]
    vals = [(-2.5, False), (0.0, False), (1.0, False), (math.nan, True)]
    extra = [(math.inf, False), (-math.inf, False), (math.nan, False), (-0.0, False), (2.5, False), (1e300, False), (5e-324, False), (0.5, False), (-7.0, False), (8.0, False)]
    for t in (0, S, -3 * S):
        for v in vals + extra:
            out.append(((t, *v),))
    for tt in itertools.product((0, S, 4 * S), repeat=2):
        for vv in itertools.product(vals, repeat=2):
            out.append(tuple((t, *v) for t, v in zip(tt, vv)))
    for tt in itertools.product((0, S, 4 * S), repeat=3):
        for vv in itertools.product(vals[1:] if not chk.thorough else vals, repeat=3):
            out.append(tuple((t, *v) for t, v in zip(tt, vv)))
    # longer ones: null bits cross bytes
    for n in (8, 9, 12, 17):
        for k in range(6):
            out.append(tuple((((i * (1, 5, 1, 7, 3, 1)[k]) % n) * S * (1, 1, 2, 1, 1, 3)[k], float((i * 3 + k) % 5 - 1) if not (k % 2 and (i + k) % 4 == 0) else math.nan, k % 2 and (i + k) % 4 == 0) for i in range(n)))
    return out


def same(exp, got):
    """null points stay null points at their time; what is stored for their value is not looked at"""
    if len(exp) != len(got):
        return False
    for (t, v, z), (u, w, y) in zip(exp, got):
        if t != u or bool(z) != y or (not z and not V.same(v, w, 1e-13) and not (abs(v) < 1e-300 and abs(w) < 1e-300)):
            return False
    return True


def judge(exp, r):
    """None or a complaint; exp: series or None for an error"""
    if exp is None:
        return None if r.startswith("ERR") else "an error"
    if r.startswith("ERR"):
        return f"{show(exp)}"
    g = V.parse(r, strict=False)
    if isinstance(g, str):
        return g
    if not same(exp, [(t, math.nan if v is None else v, z) for (t, v), z in zip(g.pts, g.nulls)]):
        return f"{show(exp)}"
    if g.flags & 1 and not P.is_sorted(exp):
        return "no sorted flag"
    if P.nulls(exp) and not g.flags & 2:
        return "the null flag"


def text(s):
    return V.text([(t, None if z else v) for t, v, z in s])


def run_(chk):
    chk.start_pg()
    with_setup(chk)
    E = P.elements()
    ss = series(chk)
    cases = [(n, i) for n in E for i in range(len(ss))]

    def work(conn, part, out):
        forms = {}
        for n, i in part:
            forms.setdefault(n, []).append(i)
        for n, idx in forms.items():
            sql, f = E[n]
            qs = [f"SELECT ({lit(text(ss[i]))}::{TV} -> {sql})::text" for i in idx]
            res = conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(lit(x) for x in qs) + "]) WITH ORDINALITY y(x, o) ORDER BY o")
            for i, r in zip(idx, res):
                exp = P.run([f], list(ss[i]))
                case = {"element": n, "series": show(ss[i])}
                out.trace(case, steps=len(ss[i]) + 1, state=(n, i))
                w = judge(exp, r[0])
                if w:
                    out.violation(case, w, r[0])
    chk.explore("element x series", cases, work, chunk=400)

    # filter keeps exactly the null bits of what it keeps, for every subset of up to 9 (11) points and several null patterns
    n = chk.pick(9, 11)
    masks = [(m, z) for m in range(1 << n) for z in (0, (1 << n) - 1, 0x155, 0x11d)]

    def work_f(conn, part, out):
        q = []
        for m, z in part:
            s = [(i * S, math.nan if z >> i & 1 else float(i), bool(z >> i & 1)) for i in range(n)]
            keep = " or ".join(f"$time = '2000-01-01 00:00:{i:02d}+00't" for i in range(n) if m >> i & 1) or "1 > 2"
            q.append(lit(f"SELECT ({lit(text(s))}::{TV} -> {P.q('filter')}($$ {keep} $$))::text"))
        for (m, z), r in zip(part, conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(q) + "]) WITH ORDINALITY y(x, o) ORDER BY o")):
            exp = [(i * S, math.nan if z >> i & 1 else float(i), bool(z >> i & 1)) for i in range(n) if m >> i & 1]
            case = {"filter": bin(m), "nulls": bin(z)}
            out.trace(case, steps=n, state=(m, z))
            w = judge(exp, r[0])
            if w:
                out.violation(case, w, r[0])
    chk.explore("filter: subsets x null patterns", masks, work_f, chunk=100)

    # sort: every permutation of up to 6 (7) points with ties and nulls is put in order, stably
    cases = []
    for nn in range(2, chk.pick(6, 7) + 1):
        base = [(i // 2 * S, float(i), i % 3 == 1) for i in range(nn)]
        cases += [tuple(p) for p in itertools.permutations(base)]

    def work_s(conn, part, out):
        q = [lit(f"SELECT ({lit(text(s))}::{TV} -> {P.q('sort')}())::text") for s in part]
        for s, r in zip(part, conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(q) + "]) WITH ORDINALITY y(x, o) ORDER BY o")):
            out.trace({"sort": show(s)}, steps=len(s), state=s)
            w = judge(P.sort(list(s)), r[0])
            if not w and not V.parse(r[0], strict=False).flags & 1:
                w = "the sorted flag"
            if w:
                out.violation({"sort": show(s)}, w, r[0])
    chk.explore("sort: permutations", cases, work_s, chunk=100)

    # fill_to: all gap patterns x intervals x methods
    cases = [(g, d, m) for k in range(1, 4) for g in itertools.product((0, 1, 2, 3, 5, 8), repeat=k) for d in (1, 2, 3, 7, 8) for m in ("locf", "linear", "nearest")]

    def work_g(conn, part, out):
        q, ex = [], []
        for g, d, m in part:
            t, s = 0, [(0, 1.0, False)]
            for i, x in enumerate(g):
                t += x * S
                s.append((t, float((i * 7 + 3) % 5 * (-1) ** i), False))
            ex.append((s, P.fill_to(d * S, m)(s)))
            q.append(lit(f"SELECT ({lit(text(s))}::{TV} -> {P.q('fill_to')}('{d} s', '{m}'))::text"))
        for c, (s, e), r in zip(part, ex, conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(q) + "]) WITH ORDINALITY y(x, o) ORDER BY o")):
            case = {"series": show(s), "fill_to": c[1:]}
            out.trace(case, steps=len(e), state=c)
            w = judge(e, r[0])
            if not w and not V.parse(r[0]).flags & 1:
                w = "the sorted flag"
            if w:
                out.violation(case, w, r[0])
    chk.explore("fill_to: gaps x interval x method", cases, work_g, chunk=100)


def with_setup(chk):
    c = chk.cl.conn()
    for st in P.SETUP.split(";\n"):
        if st.strip():
            c.q(st)


if __name__ == "__main__":
    main(run_)
