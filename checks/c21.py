"""C21: count_min_sketch never underestimates and follows the Count-Min definition, however the rows are partitioned."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
from aggrun import run, Err
import partial
from cms import Model

T = "toolkit_experimental.countminsketch"
AGG = "toolkit_experimental.count_min_sketch(text,float8,float8)"
AC = "toolkit_experimental.approx_count"


def run_(chk):
    for eps, delta, al, maxn in ((0.9, 0.1, ["a", "b", "", "é'", None], 4), (0.5, 0.5, ["x", "y", "long" * 30, None], 4), (0.99, 0.02, ["1", "2", "3", "4", "5"], 4)):
        syms = [a for a in al if a is not None] + ["never seen", "z"]
        cols = ["a::text", f"(a::text::{T})::text"] + [f"{AC}({lit(s)}, a)" for s in syms]

        def jd(vs, r):
            if isinstance(r, Err):
                return "no error", "", repr(r)
            m = Model(eps, delta)
            for v in vs:
                if v is not None:
                    m.add(v)
            want = [m.text(), m.text()] + [str(m.est(s)) for s in syms] if m.n else [None] * len(r)
            for s, w, g in zip(["counters", "text form read back"] + ["approx_count of " + s for s in syms], want, r):
                if w != g:
                    return s, w, g
            for s in syms:
                assert m.est(s) >= sum(v == s for v in vs)
        partial.explore(chk, f"eps {eps} delta {delta}", T, AGG, None, cols, [al], lambda v: (v, eps, delta), jd, chk.pick(maxn, maxn + 1), argtypes=["text", "float8", "float8"], n4=4)

    # larger streams, several parameters and orders, through the aggregate and in parallel-like parts
    cs = [(e, d, n, m) for e in (0.5, 0.1, 0.02, 0.003) for d in (0.9, 0.3, 0.05, 1e-4) for n, m in ((50, 1), (300, 40), (1000, 700), chk.pick((3000, 997), (20000, 4001)))]

    def work(conn, part, out):
        for e, d, n, m in part:
            vals = [str(i * i % m) for i in range(n)]
            mod = Model(e, d)
            for v in vals:
                mod.add(v)
            keys = sorted(set(vals)) + [f"no{i}" for i in range(40)]
            ks = "ARRAY[" + ",".join(lit(k) for k in keys) + "]"
            r = conn.q(f"SELECT (SELECT array_agg({AC}(k, a) ORDER BY o) FROM unnest({ks}) WITH ORDINALITY u(k, o)), a::text FROM "
                       f"(SELECT toolkit_experimental.count_min_sketch((i::bigint*i % {m})::text, {e}, {d}) a FROM generate_series(0, {n - 1}) i) x")[0]
            out.trace((e, d, n, m), steps=n, state=(e, d, n, m))
            got = [int(x) for x in r[0].strip("{}").split(",")]
            over = 0
            for k, g in zip(keys, got):
                t = vals.count(k)
                if g < t or g != mod.est(k):
                    out.violation({"error": e, "probability": d, "n": n, "distinct": m, "item": k}, max(t, mod.est(k)), g)
                    break
                over += g > t + e * n
            if r[1] != mod.text():
                out.violation({"error": e, "probability": d, "n": n, "distinct": m}, "counters of the definition", r[1][:200])
            if over > max(1, 2 * d * len(keys)):
                out.violation({"error": e, "probability": d, "n": n, "distinct": m}, f"at most {d} of the estimates off by more than {e}*{n}", over)
    chk.explore("longer streams", cs, work, chunk=2)

    def work2(conn, part, out):
        for q, bad in part:
            r = conn.try_q(q)
            out.trace(q, state=q)
            if isinstance(r, Exception) != bad:
                out.violation(q, "error" if bad else "no error", repr(r)[:300])
    qs = []
    for v, bad in (("0", 1), ("1", 1), ("-0.1", 1), ("1.5", 1), ("'NaN'", 1), ("'Infinity'", 1), ("0.5", 0), ("0.999", 0), ("0.01", 0)):
        qs.append((f"SELECT toolkit_experimental.count_min_sketch('a', {v}, 0.5)::text", bool(bad)))
        qs.append((f"SELECT toolkit_experimental.count_min_sketch('a', 0.5, {v})::text", bool(bad)))
    chk.explore("parameters", qs, work2, chunk=3)
    chk.assumptions.append("the hash functions (SipHash-2-4 keyed with the row number) are part of the definition: stored sketches depend on them")


if __name__ == "__main__":
    main(run_)
