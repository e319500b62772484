"""Timevectors: parsing their text form, and the model of what one holds."""
import math, re, datetime
from mclib import ts, fl, lit

T = "timevector_tstz_f64"
SORTED, NULLS = 1, 2
_pt = re.compile(r'\(ts:"([^"]*)",val:([^)]*)\)')
_hd = re.compile(r'^\(version:1,num_points:(\d+),flags:(\d+),internal_padding:\(0,0,0\),points:\[(.*)\],null_val:\[([\d,]*)\]\)$', re.S)
_E = datetime.datetime(2000, 1, 1)


def t_us(s):
    s = s.removesuffix("+00")
    d = datetime.datetime.fromisoformat(s) - _E
    return (d.days * 86400 + d.seconds) * 1000000 + d.microseconds


def num(s):
    s = {"inf": "Infinity", "-inf": "-Infinity"}.get(s, s)
    return float(s)


class TV:
    """points: [(t, v or None for a null)]"""
    def __init__(self, pts, flags=None, raw=None):
        self.pts, self.flags, self.raw = pts, flags, raw

    def __repr__(self):
        return f"TV(flags={self.flags}, {self.pts})"


def parse(text, strict=True):
    """TV, or a string saying what is malformed."""
    m = _hd.match(text)
    if not m:
        return "not a timevector: " + text[:200]
    n, flags = int(m[1]), int(m[2])
    pts = [(t_us(a), num(b)) for a, b in _pt.findall(m[3])]
    nb = [int(x) for x in m[4].split(",")] if m[4] else []
    if len(pts) != n or len(nb) != (n + 7) // 8:
        return f"num_points {n}, {len(pts)} points, {len(nb)} bytes of null bits"
    nulls = [bool(nb[i // 8] >> (i % 8) & 1) for i in range(n)]
    if n % 8 and nb[-1] >> (n % 8):
        return "null bits set past the end"
    out = []
    for (t, v), z in zip(pts, nulls):
        if strict and z and flags & NULLS and not math.isnan(v):
            return f"a null with value {v}"
        if z and not flags & NULLS:
            return "null bits without the null flag"
        out.append((t, None if z else v))
    r = TV(out, flags, text)
    r.nulls = nulls
    return r


def is_sorted(pts):
    return all(a[0] <= b[0] for a, b in zip(pts, pts[1:]))


def has_nulls(pts):
    return any(v is None for _, v in pts)


def same(a, b, tol=0.0):
    """two values, None being null"""
    if a is None or b is None:
        return a is None and b is None
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    return tol > 0 and abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


def compare(pts, got, tol=0.0, flags=True):
    """None or a complaint about a parsed timevector; pts is what it should hold. A null flag without
    nulls is tolerated (elements keep it), a missing one is not; the sorted flag must tell the truth
    when set, and must be set on data that is sorted if flags == 'exact'."""
    if isinstance(got, str):
        return got
    if len(pts) != len(got.pts) or any(p[0] != q[0] or not same(p[1], q[1], tol) for p, q in zip(pts, got.pts)):
        return f"points {pts}"
    if flags:
        if got.flags & SORTED and not is_sorted(pts):
            return "no sorted flag"
        if has_nulls(pts) and not got.flags & NULLS:
            return "the null flag"
        if flags == "exact" and (not got.flags & SORTED and is_sorted(pts) or got.flags & NULLS and not has_nulls(pts)):
            return f"flags {is_sorted(pts) * SORTED + has_nulls(pts) * NULLS}"
        if got.flags & ~3:
            return "no other flags"
    return None


def sql(pts):
    """timevector expression of points (in this order)."""
    if not pts:
        return "(timevector('2000-01-01'::timestamptz, 0.0) -> toolkit_experimental.filter($$ $value != 0 $$))"
    v = ",".join(f"({i},'{ts(t)}'::timestamptz,{'NULL' if x is None else lit(fl(x))}::float8)" for i, (t, x) in enumerate(pts))
    return f"(SELECT timevector(t, v ORDER BY o) FROM (VALUES {v}) _(o, t, v))"


def text(pts, flags=None):
    """the text form of a timevector of these points."""
    if flags is None:
        flags = is_sorted(pts) * SORTED + has_nulls(pts) * NULLS
    nb = [0] * ((len(pts) + 7) // 8)
    for i, (_, v) in enumerate(pts):
        if v is None:
            nb[i // 8] |= 1 << (i % 8)

    def f(v):
        return "NaN" if v is None or math.isnan(v) else "inf" if v == math.inf else "-inf" if v == -math.inf else repr(float(v))
    p = ",".join(f'(ts:"{ts(t)}",val:{f(v)})' for t, v in pts)
    return f"(version:1,num_points:{len(pts)},flags:{flags},internal_padding:(0,0,0),points:[{p}],null_val:[{','.join(map(str, nb))}])"
