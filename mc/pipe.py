"""Model of timevector pipeline elements. A series is a list of (t, v, null); Err stands for an error."""
import math
from mclib import fl, lit

S = 1_000_000


class PErr(Exception):
    pass


class PSkip(Exception):
    """not modelled here"""


def _f(g):
    def h(x):
        try:
            return g(x)
        except (ValueError, ZeroDivisionError):
            return math.nan
        except OverflowError:
            return math.inf
    return h


def rnd(x):
    if math.isnan(x) or math.isinf(x):
        return x
    a = math.floor(abs(x))
    r = a + 1 if abs(x) - a >= 0.5 else a
    return math.copysign(float(r), x)


def _ln(x):
    if math.isnan(x) or x < 0:
        return math.nan
    return -math.inf if x == 0 else math.log(x)


def _log10(x):
    if math.isnan(x) or x < 0:
        return math.nan
    return -math.inf if x == 0 else math.log10(x)


def _keep(g):
    return lambda x: x if math.isnan(x) or math.isinf(x) else math.copysign(float(g(x)), x)


def div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def mul(a, b):
    return a * b


def mod(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
        return math.nan
    return math.fmod(a, b)


def power(a, b):
    try:
        return math.pow(a, b)
    except ValueError:
        if a == 0:   # 0 to a negative power
            return math.inf if not (b == int(b) and int(b) % 2) or math.copysign(1, a) > 0 else -math.inf
        return math.nan
    except OverflowError:
        return -math.inf if a < 0 and b == int(b) and int(b) % 2 else math.inf


def sign(x):
    return x if math.isnan(x) else math.copysign(1.0, x)


def logn(a, b):
    return div(_ln(a), _ln(b))


def cbrt(x):
    return math.cbrt(x)


def sqrt(x):
    return math.nan if x < 0 or math.isnan(x) else math.sqrt(x)


UNARY = {"abs": abs, "cbrt": cbrt, "ceil": _keep(math.ceil), "floor": _keep(math.floor), "ln": _ln, "log10": _log10,
         "round": rnd, "sign": sign, "sqrt": sqrt, "trunc": _keep(math.trunc)}
BINARY = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": mul, "div": div, "mod": mod, "power": power, "logn": logn}


def is_sorted(s):
    return all(a[0] <= b[0] for a, b in zip(s, s[1:]))


def nulls(s):
    return any(p[2] for p in s)


def mapv(f):
    return lambda s: [(t, f(v), z) for t, v, z in s]


def sort(s):
    return sorted(s, key=lambda p: p[0])


def need(s, what="sorted"):
    if not is_sorted(s):
        raise PErr("unsorted")
    if what == "nonnull" and nulls(s):
        raise PErr("nulls")


def delta(s):
    need(s, "nonnull")
    return [(q[0], q[1] - p[1], False) for p, q in zip(s, s[1:])]


def fill_to(step, method):
    def f(s):
        if step <= 0:
            raise PErr("interval")
        need(s, "nonnull")
        out = []
        for i, p in enumerate(s):
            out.append(p)
            if i + 1 < len(s):
                q = s[i + 1]
                t = p[0] + step
                while t < q[0]:
                    if method == "locf":
                        v = p[1]
                    elif method == "linear":
                        w = (t - p[0]) / (q[0] - p[0])
                        v = p[1] * (1 - w) + q[1] * w
                    else:
                        v = p[1] if t - p[0] <= q[0] - t else q[1]
                    out.append((t, v, False))
                    t += step
        return out
    return f


def lttb(n):
    """for n of at most two, or series that are short enough"""
    def f(s):
        if n < 0:
            raise PErr("negative")
        need(s)
        if n >= len(s) or n == 0:
            return s
        if n != 2:
            raise PSkip(n)
        return [s[0], s[-1]]
    return f


def filt(g):
    return lambda s: [p for p in s if g(p[0], p[1])]


def mapl(g):
    return lambda s: [(*g(t, v), z) for t, v, z in s]


def checked(g):
    """map_data with a function that returns NULL where g does: an error"""
    def f(s):
        out = []
        for t, v, z in s:
            r = g(v)
            if r is None:
                raise PErr("NULL")
            out.append((t, r, z))
        return out
    return f


def fail(s):
    raise PErr("refused")


SETUP = """
CREATE OR REPLACE FUNCTION mc_half(x float8) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT x / 2';
CREATE OR REPLACE FUNCTION mc_nullneg(x float8) RETURNS float8 LANGUAGE plpgsql IMMUTABLE AS 'BEGIN IF x < 0 THEN RETURN NULL; END IF; RETURN x + 1; END';
CREATE OR REPLACE FUNCTION mc_err(x float8) RETURNS float8 LANGUAGE plpgsql IMMUTABLE AS 'BEGIN IF x > 2 THEN RAISE ''big''; END IF; RETURN x; END';
CREATE OR REPLACE FUNCTION mc_int(x int) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT x::float8';
CREATE OR REPLACE FUNCTION mc_toint(x float8) RETURNS int LANGUAGE sql IMMUTABLE AS 'SELECT x::int';
CREATE OR REPLACE FUNCTION mc_two(x float8, y float8) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT x + y';
CREATE OR REPLACE FUNCTION mc_tv(x timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT timevector(t + interval ''1 s'', v * 3 ORDER BY o) FROM unnest(x) WITH ORDINALITY y(t, v, o)';
CREATE OR REPLACE FUNCTION mc_tvnull(x timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT NULL::timevector_tstz_f64';
CREATE OR REPLACE FUNCTION mc_tvnum(x timevector_tstz_f64) RETURNS float8 LANGUAGE sql IMMUTABLE AS 'SELECT 1.0::float8'
"""


def tv_fn(s):
    if not s:
        raise PErr("NULL")   # the aggregate of no rows
    return [(t + S, v * 3, False) for t, v, z in s]


def q(e):
    return "toolkit_experimental." + e


def elements():
    """name -> (sql, model)"""
    E = {}

    def add(sql, f):
        E[sql] = (q(sql) if "(" in sql and not sql.startswith("public.") else sql, f)
    for n, f in UNARY.items():
        add(n + "()", mapv(f))
    for n, f in BINARY.items():
        for r in (-2.5, 0.0, 3.0, math.inf, math.nan):
            add(f"{n}({lit(fl(r))}::float8)", mapv(lambda x, f=f, r=r: f(x, r)))
    add("sort()", sort)
    E["delta()"] = ("delta()", delta)
    for n in (-1, 0, 2, 99):
        add(f"lttb({n})", lttb(n))
    for n, d in (("1 s", S), ("2 s", 2 * S), ("1.5 s", 3 * S // 2), ("10 s", 10 * S), ("0 s", 0), ("-1 s", -S), ("1 day", 86400 * S)):
        for m, k in (("locf", "locf"), ("interpolate", "linear"), ("LINEAR", "linear"), ("Nearest", "nearest")):
            add(f"fill_to('{n}', '{m}')", fill_to(d, k))
    add("fill_to('1 mon -29 days', 'locf')", fill_to(86400 * S, "locf"))
    add("fill_to('1 s', 'other')", fail)
    # functions
    def half(x):
        if x and not x / 2:
            raise PErr("underflow")
        return x / 2
    add("map_data('mc_half')", mapv(half))
    add("map_data('dround')", mapv(lambda x: x if math.isnan(x) or math.isinf(x) else math.copysign(float(round(x)), x)))
    add("map_data('mc_nullneg')", checked(lambda x: None if x < 0 else x + 1))
    add("map_data('mc_int')", fail)
    add("map_data('mc_toint')", fail)
    add("map_data('mc_two')", fail)
    add("map_data('mc_tv')", fail)

    def err(x):
        # NaN is larger than everything for PostgreSQL
        if x > 2 or math.isnan(x):
            raise PErr("big")
        return x
    add("map_data('mc_err')", mapv(err))
    add("map_series('mc_tv')", tv_fn)
    add("map_series('mc_tvnull')", fail)
    add("map_series('mc_tvnum')", fail)
    add("map_series('mc_half')", fail)
    # lambdas
    add("map($$ $value * 2 + 1 $$)", mapv(lambda x: x * 2 + 1))
    add("map($$ ($time + '2 s'i, $value) $$)", mapl(lambda t, v: (t + 2 * S, v)))
    add("map($$ ('2000-01-01 00:00:05+00't, $value) $$)", mapl(lambda t, v: (5 * S, v)))

    def back(t, v):
        if not abs(v) < 1e9:
            raise PErr("interval out of range")
        return 5 * S - rnd(v * S), -v
    add("map($$ ('2000-01-01 00:00:05+00't - '1 s'i * $value, -$value) $$)", mapl(back))
    add("map($$ ('2000-01-01 00:00:05+00't - $time, $value) $$)", fail)
    add("map($$ let $x = $value * $value; $x - $value $$)", mapv(lambda x: x * x - x))
    add("map($$ $time $$)", fail)
    add("map($$ $value > 1 $$)", fail)
    add("map($$ ($value, $time) $$)", fail)
    add("filter($$ $value > 0 $$)", filt(lambda t, v: v > 0))
    add("filter($$ $value != 1 $$)", filt(lambda t, v: v != 1))
    add("filter($$ $time < '2000-01-01 00:00:02+00't $$)", filt(lambda t, v: t < 2 * S))
    add("filter($$ not ($time = '2000-01-01 00:00:01+00't and $value >= 1) $$)", filt(lambda t, v: not (t == S and v >= 1)))
    add("filter($$ $value = $value $$)", filt(lambda t, v: v == v))
    add("filter($$ 1 > 2 $$)", filt(lambda t, v: False))
    add("filter($$ $value $$)", fail)
    return E


def run(fs, s):
    """the series after the elements, or None for an error; the second part tells that being known as sorted or free
    of nulls may matter (a flag that was lost is not an error of the series)"""
    for f in fs:
        try:
            s = f(s)
        except PErr:
            return None
    return s


def text(s):
    import tv
    return tv.text([(t, None if z else v) for t, v, z in s])
