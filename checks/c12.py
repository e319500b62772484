"""C12: stats_agg over sliding window frames (inverse transitions) and rolling() equal the statistics of the frame."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import st
from st import ACC1, ACC2
from c09 import inf_tag

INF, NAN = math.inf, math.nan


def f8(v):
    return "NULL::float8" if v is None else lit(float(v)) + "::float8"


def frames(n):
    out = []
    for a in range(-n + 1, n):
        for b in range(a, n):
            out.append((a, b))
    return out


def bound(k):
    return "CURRENT ROW" if k == 0 else f"{-k} PRECEDING" if k < 0 else f"{k} FOLLOWING"


def run_(chk):
    def work(conn, part, out):
        for kind, seq in part:
            n = len(seq)
            frs = frames(min(n, 4))
            acc = ACC2 if kind in ("2d", "tf2d", "roll2") else ACC1
            vals = ",".join(f"({i}," + (f8(v) if acc is ACC1 else f8(v[0]) + "," + f8(v[1])) + ")" for i, v in enumerate(seq))
            args = "v" if acc is ACC1 else "y, x"
            cols = "i, v" if acc is ACC1 else "i, y, x"
            fn = {"1d": "stats_agg(v)", "2d": "stats_agg(y,x)", "tf1d": "toolkit_experimental.stats_agg_tf(v)", "tf2d": "toolkit_experimental.stats_agg_tf(y,x)", "big": "stats_agg(v::bigint)"}.get(kind)
            if kind == "roll":
                # rolling() over single-row (and one empty) summaries
                src = f"(SELECT i, stats_agg(v) s FROM (VALUES {vals}) q({cols}) GROUP BY i)"
                fn = "rolling(s)"
            elif kind == "roll2":
                acc = ACC2
                vals = ",".join(f"({i},{f8(v[0])},{f8(v[1])})" for i, v in enumerate(seq))
                src = f"(SELECT i, stats_agg(y,x) s FROM (VALUES {vals}) q(i,y,x) GROUP BY i)"
                fn = "rolling(s)"
            else:
                src = f"(VALUES {vals})"
            colsd = cols if not kind.startswith("roll") else "i, s"
            sel = ", ".join(x for fi in range(len(frs)) for x in (e.replace("(a", f"(a{fi}", 1) for _, e in acc))
            wins = ", ".join(f"{fn} OVER (ORDER BY i ROWS BETWEEN {bound(a)} AND {bound(b)}) a{fi}" for fi, (a, b) in enumerate(frs))
            q = f"SELECT {sel} FROM (SELECT i, {wins} FROM {src} q({colsd}) OFFSET 0) w ORDER BY i"
            res = conn.try_q(q)
            out.trace({"kind": kind, "sequence": seq, "frames": len(frs)}, steps=n * len(frs), state=(kind, str(seq)))
            if isinstance(res, Exception):
                out.violation({"kind": kind, "sequence": seq}, "no error", repr(res))
                continue
            for i, row in enumerate(res):
                for fi, (a, b) in enumerate(frs):
                    sub = seq[max(0, i + a):max(0, i + b + 1)]
                    got = row[fi * len(acc):(fi + 1) * len(acc)]
                    e = (st.expect1 if acc is ACC1 else st.expect2)(sub)
                    if acc is ACC2:
                        # no spread left in one variable: rounding of the inverse transition decides, nothing to compare
                        if e.get("variance_pop@x") == 0 or e.get("variance_pop@y") == 0:
                            for k in ("slope", "intercept", "x_intercept", "corr", "determination_coeff"):
                                e.pop(k, None)
                    if not any(x is not None for x in ([v for v in sub] if acc is ACC1 else [v for v in sub if None not in v])):
                        # nothing in the frame: no summary, or an empty one
                        bad = None if all(g is None or g == "0" for g in got) else ("empty frame", None, repr(got))
                    else:
                        # tolerances are relative to the largest value of the partition
                        big = max([abs(v) for v in seq if isinstance(v, float) and math.isfinite(v)] + [1.0]) if acc is ACC1 else 1.0
                        bad = None
                        for keys, atol in ((("num_vals", "sum", "average"), 1e-6), (("stddev", "stddev_pop"), 1e-6 * big),
                                           (("variance", "variance_pop"), 1e-12 * big * big if big > 1e5 else 1e-6), (None, 1e-6)):
                            sub_e = {k: v for k, v in e.items() if keys is None or k in keys}
                            if keys is None and big > 1e5:
                                continue
                            bad = bad or st.diff(acc, sub_e, got, 1e-6, atol)
                    if bad:
                        out.violation({"kind": kind, "sequence": seq, "frame": f"{bound(a)} .. {bound(b)}", "row": i},
                                      f"{bad[0]} = {bad[1]}", bad[2], tag=inf_tag(True, bad))
                        break

    cs = []
    A = [-2.0, 0.5, 3.0]
    for n in range(1, chk.pick(5, 7)):
        cs += [("1d", s) for s in itertools.product(A + ([None] if n < 5 else []), repeat=n)]
    for n in range(1, 5):
        cs += [("1d", s) for s in itertools.product([1.0, None, INF, NAN] if n < 4 else [2.0, -INF, NAN], repeat=n)]
        cs += [("roll", s) for s in itertools.product([1.0, 4.0, None] + ([INF, NAN] if n < 4 else []), repeat=n)]
        cs += [("big", s) for s in itertools.product([1, None, 7], repeat=n)]
        cs += [("tf1d", s) for s in itertools.product([1.0, None, -7.0], repeat=n)]
    # outliers entering and leaving the frame
    for n in (4, 5):
        cs += [("1d", s) for s in itertools.product([1.0, 2.0, 1e9] if n == 4 else [1.5, -1e7], repeat=n)]
        cs += [("roll", s) for s in itertools.product([1.0, 2.0, 1e9] if n == 4 else [1.5, -1e7], repeat=n)]
    P = [(1.0, 2.0), (-3.0, 0.0), (0.5, 5.0)]
    for n in range(1, chk.pick(5, 6)):
        cs += [("2d", s) for s in itertools.product(P + ([(1.0, None), (None, 3.0)] if n < 4 else []), repeat=n)]
        cs += [("roll2", s) for s in itertools.product(P, repeat=n)]
    for n in range(1, 4):
        cs += [("2d", s) for s in itertools.product([(1.0, 1.0), (4.0, 2.0), (INF, 1.0), (1.0, NAN)], repeat=n)]
        cs += [("roll2", s) for s in itertools.product([(1.0, 1.0), (4.0, 2.0), (INF, 1.0), (1.0, NAN)], repeat=n)]
        cs += [("tf2d", s) for s in itertools.product(P, repeat=n)]
    chk.explore("every frame of every sequence", cs, work, chunk=20)


if __name__ == "__main__":
    main(run_)
