"""Reference model of time_weight."""
from fractions import Fraction as F
from metric import dedup

UNITS = {"microsecond": 1, "millisecond": 1000, "second": 10**6, "minute": 60 * 10**6, "hour": 3600 * 10**6}
ALIASES = {"microsecond": ["usecond", "microsecond", "microseconds", "us", "usec", "useconds", "usecs", "US"],
           "millisecond": ["msecond", "millisecond", "milliseconds", "ms", "msec", "mseconds", "msecs", "MilliSeconds"],
           "second": ["second", "s", "sec", "seconds", "secs", "SECOND"],
           "minute": ["minute", "m", "min", "mins", "minutes"],
           "hour": ["hour", "hours", "h", "hr", "hrs", "Hour"]}


def area(ps, linear):
    s = F(0)
    for (t1, v1), (t2, v2) in zip(ps, ps[1:]):
        v1, v2 = F(v1), F(v2)
        s += ((v1 + v2) / 2 if linear else v1) * (t2 - t1)
    return s


def summary(points, linear):
    ps = dedup(points)
    if not ps:
        return None
    a = area(ps, linear)
    d = ps[-1][0] - ps[0][0]
    return {"average": None if d == 0 else a / d, "integral": a, "first_val": F(ps[0][1]), "last_val": F(ps[-1][1]),
            "first_time": ps[0][0], "last_time": ps[-1][0], "_ps": ps}


def interpolated(cur, prev, nxt, start, end, linear):
    """cur, prev, nxt: sorted point lists. Returns extended list of points."""
    ps = [(t, F(v)) for t, v in cur]
    orig = list(ps)

    def lerp(a, b, t):
        return F(a[1]) + (F(b[1]) - F(a[1])) * F(t - a[0], b[0] - a[0])
    if prev and start < orig[0][0]:
        v = lerp(prev[-1], orig[0], start) if linear else F(prev[-1][1])
        ps.insert(0, (start, v))
    if nxt or not linear:
        v = lerp(orig[-1], nxt[0], end) if linear else orig[-1][1]
        ps.append((end, v))
    return ps
