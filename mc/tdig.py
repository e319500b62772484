"""Oracle of tdigest: judged against the exact multiset of values."""
import math, bisect
from mclib import fl, close
from aggrun import Err

QS = [-0.5, 0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.34, 0.4, 0.45, 0.5, 0.5000001, 0.55, 0.6, 0.67, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 1.0, 1.5]


def cols(probes):
    return (["num_vals(a) || '|' || (a -> num_vals())", "min_val(a) || '|' || (a -> min_val())", "max_val(a) || '|' || (a -> max_val())",
             "mean(a) || '|' || (a -> mean())", "total(a)"]
            + ["array[" + ",".join(f"approx_percentile({q}, a)" for q in QS) + "]"]
            + ["array[" + ",".join(f"a -> approx_percentile({q})" for q in QS) + "]"]
            + ["array[" + ",".join(f"approx_percentile_rank('{fl(v)}', a)" for v in probes) + "]"]
            + ["array[" + ",".join(f"a -> approx_percentile_rank('{fl(v)}')" for v in probes) + "]"])


def pgarr(s):
    return [float(x) for x in s.strip("{}").split(",")]


def near(a, b, scale):
    return a == b or abs(a - b) <= 1e-9 * scale + 1e-300


def judge(values, size, probes, r, slack=1.0):
    """probes ascending. slack multiplies the allowed rank error of a digest that was merged from parts."""
    xs = sorted(v for v in values if v is not None and not math.isnan(v))
    if isinstance(r, Err):
        return "no error", "", repr(r)
    if not xs:
        return None if all(x is None or set(x) <= set("{NUL,}") for x in r) else ("NULL for no values", None, repr(r))
    n = len(xs)
    nv, mn, mx, mean, tot, qs, qs2, rs, rs2 = r
    for nm, g, e in (("num_vals", nv, float(n)), ("min_val", mn, xs[0]), ("max_val", mx, xs[-1]), ("mean", mean, math.fsum(xs) / n), ("total", tot + "|" + tot, math.fsum(xs))):
        a, b = g.split("|")
        scale = max(map(abs, xs)) * (n if nm == "total" else 1)
        if a != b or not near(float(a), e, scale) or nm == "num_vals" and float(a) != e:
            return nm, e, g
    if qs != qs2 or rs != rs2:
        return "arrow forms agree", (qs, rs), (qs2, rs2)
    mn, mx = float(mn.split("|")[0]), float(mx.split("|")[0])
    scale = max(map(abs, xs))
    prev = -math.inf
    for q, g in zip(QS, pgarr(qs)):
        if not mn <= g <= mx:
            return f"approx_percentile({q}) within [min, max]", (mn, mx), g
        if g < prev - 1e-9 * scale:
            return f"approx_percentile({q}) ascending", prev, g
        prev = g
        if q <= 0 and g != mn or q >= 1 and g != mx:
            return f"approx_percentile({q})", (mn, mx), g
        if 0 < q < 1:
            if slack == 1.0 and n < size / 2:
                k = q * n
                lo, hi = math.floor(k + .5 - 1e-9), math.ceil(k + .5 + 1e-9)
                lo, hi = xs[max(lo, 1) - 1], xs[min(hi, n) - 1]
            else:
                d = (4 * slack / size) * n + 2
                lo, hi = xs[max(0, math.floor(q * n - d))], xs[min(n - 1, math.ceil(q * n + d))]
            if not lo - 1e-9 * scale <= g <= hi + 1e-9 * scale:
                return f"approx_percentile({q})", (lo, hi), g
    prev = 0.0
    for v, g in zip(probes, pgarr(rs)):
        if not 0 <= g <= 1:
            return f"approx_percentile_rank({v}) within [0, 1]", "", g
        if g < prev - 1e-9:
            return f"approx_percentile_rank({v}) ascending", prev, g
        prev = g
        if v < xs[0] - 1e-9 * scale and g != 0 or v > xs[-1] + 1e-9 * scale and g != 1:
            return f"approx_percentile_rank({v}) outside of the values", (xs[0], xs[-1]), g
        lo, hi = bisect.bisect_left(xs, v - 1e-9 * scale), bisect.bisect_right(xs, v + 1e-9 * scale)
        d = 0.5 if slack == 1.0 and n < size / 2 else (4 * slack / size) * n + 2
        if not (lo - d) / n - 1e-9 <= g <= (hi + d) / n + 1e-9:
            return f"approx_percentile_rank({v})", ((lo - d) / n, (hi + d) / n), g
    return None


def order(xs, o):
    if o == "up":
        return xs
    if o == "down":
        return xs[::-1]
    if o == "mix":
        return xs[::2] + xs[1::2][::-1]
    # a fixed permutation with no structure
    return [xs[i * 7919 % len(xs)] for i in range(len(xs))] if len(xs) % 7919 else xs


SER = {
    "linear": lambda n: [i + 0.37 for i in range(n)],
    "geometric": lambda n: [1.0123 * 1.013 ** (i % 2000) for i in range(n)],
    "signed": lambda n: [(i - n // 2) * 1.37 for i in range(n)],
    "heavy": lambda n: sorted(3.3 if i % 3 else 0.0 if i % 2 else 1.37 * (i + 1) for i in range(n)),
    "constant": lambda n: [0.1] * n,
    "outlier": lambda n: [-1e9] + [i / n for i in range(n - 2)] + [1e9] if n > 2 else [1.0] * n,
}
