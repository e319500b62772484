"""Reference model of counter_agg / gauge_agg: exact arithmetic over the raw samples."""
from fractions import Fraction as F
import math

SEC = 1000000


def dedup(points):
    """points: (ts_us, val) in arrival order -> time-sorted, first arrival wins per timestamp."""
    seen = {}
    for t, v in points:
        if t is None or v is None:
            continue
        if t not in seen:
            seen[t] = v
    return sorted(seen.items())


def model(points, counter=True):
    """dict of accessor -> expected value (Fraction, int, float or None); None if no sample."""
    ps = dedup(points)
    if not ps:
        return None
    m = {}
    n = len(ps)
    ts = [t for t, _ in ps]
    raw = [F(v) for _, v in ps]
    adj, off, resets = [raw[0]], F(0), 0
    changes = 0
    for a, b in zip(raw, raw[1:]):
        if b != a:
            changes += 1
        if counter and b < a:
            off += a
            resets += 1
        adj.append(b + off)
    xs = [F(t, SEC) for t in ts]
    m["num_elements"] = n
    m["num_changes"] = changes
    if counter:
        m["num_resets"] = resets
    m["delta"] = adj[-1] - adj[0]
    m["time_delta"] = xs[-1] - xs[0]
    m["first_val"], m["last_val"] = raw[0], raw[-1]
    m["first_time"], m["last_time"] = ts[0], ts[-1]

    def idel(a, b):
        return b if counter and b < a else b - a
    if n == 1:
        m["rate"] = m["irate_left"] = m["irate_right"] = None
        m["idelta_left"] = m["idelta_right"] = F(0)
    else:
        m["rate"] = m["delta"] / m["time_delta"]
        m["idelta_left"] = idel(raw[0], raw[1])
        m["idelta_right"] = idel(raw[-2], raw[-1])
        m["irate_left"] = m["idelta_left"] / (xs[1] - xs[0])
        m["irate_right"] = m["idelta_right"] / (xs[-1] - xs[-2])
    mx, my = sum(xs) / n, sum(adj) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    syy = sum((y - my) ** 2 for y in adj)
    sxy = sum((x - mx) * (y - my) for x, y in zip(xs, adj))
    if sxx == 0:
        m["slope"] = m["intercept"] = m["corr"] = m["zero_time"] = None
    else:
        m["slope"] = sxy / sxx
        m["intercept"] = my - mx * m["slope"]
        m["corr"] = None if syy == 0 else float(sxy) / math.sqrt(float(sxx) * float(syy))
        if syy == 0 or sxy == 0:
            m["zero_time"] = None if syy == 0 else "any"
        else:
            m["zero_time"] = -m["intercept"] / m["slope"] * SEC
    m["_adj"], m["_raw"], m["_ts"] = adj, raw, ts
    return m


def extrapolated(points, lo, hi, counter=True):
    """Prometheus extrapolation over [lo, hi) in microseconds. Returns (delta, rate), 'error' if
    the bounds do not admit one, (None, None) when there is no answer."""
    m = model(points, counter)
    if lo is None or hi is None:
        return "error"
    if not (lo <= m["_ts"][0] < hi and lo <= m["_ts"][-1] < hi):
        return "error"
    n = len(m["_ts"])
    if n < 2:
        return None, None
    d = m["delta"]
    dur = m["time_delta"]
    start = F(m["_ts"][0] - lo, SEC)
    end = F(hi - 1000 - m["_ts"][-1], SEC)
    avg = dur / (n - 1)
    first = m["_raw"][0]
    if d > 0 and first >= 0:
        start = min(start, dur * first / d)
    thr = avg * F(11, 10)
    ext = dur
    ext += start if start < thr else avg / 2
    ext += end if end < thr else avg / 2
    # too close to the threshold for floating point to decide, unless the floats are exactly equal as well
    near = any(abs(x - thr) < F(1, 10**9) and not (x == thr and float(x) == float(avg) * 1.1) for x in (start, end))
    d2 = d * ext / dur
    total = hi - lo - 1000
    return d2, (None if total <= 0 else d2 / F(total, SEC)), near
