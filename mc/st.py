"""Reference model of stats_agg: exact moments over the rationals."""
import math
from fractions import Fraction as F

MAX = F(1.7976931348623157e308)
NAN = float("nan")
UNDEF = "undefined"      # NULL or NaN, both mean "no value" here


class Moments:
    """n, sum and central moments of a list of floats; m2..m4 are None when a value is not finite."""
    def __init__(self, xs):
        self.n = len(xs)
        self.finite = all(math.isfinite(x) for x in xs)
        if self.finite:
            fs = [F(x) for x in xs]
            self.sum = sum(fs, F(0))
            mu = self.sum / self.n if fs else F(0)
            self.m2, self.m3, self.m4 = (sum(((x - mu) ** k for x in fs), F(0)) for k in (2, 3, 4))
        else:
            self.sum = float(sum(xs)) if not (math.inf in xs and -math.inf in xs) else NAN
            self.m2 = self.m3 = self.m4 = None

    def overflow(self):
        return self.finite and any(abs(v) > MAX for v in (self.sum, self.m2, self.m3, self.m4))


def fl(x):
    return float(x)


def rat_sqrt(x):
    # sqrt of a non-negative rational as float, without overflow for our ranges
    return math.sqrt(x)


def one(m, two_d=False):
    """Expected accessor values of the 1D statistics of a Moments."""
    n = m.n
    r = {"num_vals": n}
    if n == 0:
        for k in ("average", "sum", "stddev", "variance", "skewness", "kurtosis"):
            r[k] = r[k + "_pop"] = None
        return r
    if not m.finite:
        r["sum"] = m.sum
        r["average"] = m.sum / n
        for k in ("stddev", "variance", "skewness", "kurtosis"):
            r[k + "_pop"] = NAN
            r[k] = NAN if n > 1 else UNDEF
        return r
    r["sum"] = fl(m.sum)
    r["average"] = fl(m.sum / n)
    for suf, d in (("_pop", n), ("", n - 1)):
        if d == 0:
            for k in ("stddev", "variance", "skewness", "kurtosis"):
                r[k + suf] = UNDEF
            continue
        var = m.m2 / d
        r["variance" + suf] = fl(var)
        r["stddev" + suf] = math.sqrt(var)
        if m.m2 == 0:
            r["skewness" + suf] = r["kurtosis" + suf] = "any"   # 0/0
        else:
            r["skewness" + suf] = fl(m.m3 / d) / math.sqrt(var) ** 3
            r["kurtosis" + suf] = fl(m.m4 / d / (var * var))
    return r


def two(xs, ys):
    """Expected values of the joint statistics; None: NULL, UNDEF: NULL or NaN."""
    n = len(xs)
    mx, my = Moments(xs), Moments(ys)
    r = {}
    if n == 0:
        return {k: None for k in ("slope", "intercept", "x_intercept", "corr", "determination_coeff", "covariance", "covariance_pop")}
    if not (mx.finite and my.finite):
        return {"covariance_pop": NAN, "covariance": NAN if n > 1 else UNDEF}
    fx, fy = [F(x) for x in xs], [F(y) for y in ys]
    ax, ay = mx.sum / n, my.sum / n
    sxy = sum(((x - ax) * (y - ay) for x, y in zip(fx, fy)), F(0))
    r["covariance_pop"] = fl(sxy / n)
    r["covariance"] = fl(sxy / (n - 1)) if n > 1 else UNDEF
    if mx.m2 == 0 or my.m2 == 0:
        r["corr"] = None
    else:
        r["corr"] = fl(sxy) / math.sqrt(mx.m2 * my.m2)
    if mx.m2 == 0:
        r["slope"] = r["intercept"] = r["determination_coeff"] = None
        r["x_intercept"] = fl(ax) if n > 1 else None
    else:
        s = sxy / mx.m2
        i = ay - s * ax
        r["slope"], r["intercept"] = fl(s), fl(i)
        if my.m2 == 0:
            r["determination_coeff"] = 1.0
            r["x_intercept"] = None
        else:
            r["determination_coeff"] = fl(sxy * sxy / (mx.m2 * my.m2))
            r["x_intercept"] = fl(-i / s) if s else UNDEF   # no slope: the division is undefined or infinite
            if not s:
                r["x_intercept"] = "any"
    return r


ACC1 = []
for k in ("average", "sum", "num_vals"):
    ACC1.append((k, f"{k}(a)"))
for k in ("stddev", "variance", "skewness", "kurtosis"):
    ACC1.append((k, f"{k}(a)"))
    ACC1.append((k + "_pop", f"{k}(a, 'population')"))
ACC2 = [("num_vals", "num_vals(a)")]
for v in "xy":
    for k in ("average", "sum"):
        ACC2.append((f"{k}@{v}", f"{k}_{v}(a)"))
    for k in ("stddev", "variance", "skewness", "kurtosis"):
        ACC2.append((f"{k}@{v}", f"{k}_{v}(a)"))
        ACC2.append((f"{k}_pop@{v}", f"{k}_{v}(a, 'population')"))
for k in ("slope", "intercept", "x_intercept", "corr", "determination_coeff", "covariance"):
    ACC2.append((k, f"{k}(a)"))
ACC2.append(("covariance_pop", "covariance(a, 'population')"))


def expect1(xs):
    return one(Moments([x for x in xs if x is not None]))


def expect2(rows):
    rows = [(y, x) for y, x in rows if x is not None and y is not None]
    xs, ys = [r[1] for r in rows], [r[0] for r in rows]
    e = dict(two(xs, ys))
    e["num_vals"] = len(rows)
    for v, vs in (("x", xs), ("y", ys)):
        for k, val in one(Moments(vs)).items():
            e[f"{k}@{v}"] = val
    return e


def overflows1(xs):
    xs = [x for x in xs if x is not None]
    for i in range(1, len(xs) + 1):
        m = Moments(xs[:i])
        if not m.finite:
            return False
        if m.overflow():
            return True
    return False


def same(e, got, rtol=1e-9, atol=1e-9):
    if isinstance(e, str):
        if e == "any":
            return True
        return got is None or got.lower() == "nan"
    if e is None or got is None:
        return e is None and got is None
    g = float(got)
    if math.isnan(e) or math.isnan(g):
        return math.isnan(e) and math.isnan(g)
    if e == g:
        return True
    if math.isinf(e) or math.isinf(g):
        return False
    return abs(e - g) <= atol + rtol * max(abs(e), abs(g))


def diff(accs, exp, row, rtol=1e-9, atol=1e-9):
    """First accessor that differs from the expectation."""
    for (k, _), g in zip(accs, row):
        if k in exp and not same(exp[k], g, rtol, atol):
            return k, exp[k], g
    return None
