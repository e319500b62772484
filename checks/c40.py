"""C40: calendar helpers, saturating arithmetic and the series generator."""
import os, sys, math, calendar, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import *

X = "toolkit_experimental."
LO, HI = -2**31, 2**31 - 1
sat = lambda v: max(LO, min(HI, v))
FUN = {"saturating_add": lambda x, y: sat(x + y), "saturating_sub": lambda x, y: sat(x - y), "saturating_mul": lambda x, y: sat(x * y),
       "saturating_add_pos": lambda x, y: max(0, sat(x + y)), "saturating_sub_pos": lambda x, y: max(0, sat(x - y))}


def arith(conn, part, out):
    for f, ys in part:
        for x in ys:
            r = conn.q(f"SELECT y, {X}{f}({x}, y::int) FROM unnest('{{{','.join(map(str, NUM))}}}'::int[]) y")
            for y, g in r:
                w = FUN[f](x, int(y))
                if g is None or int(g) != w:
                    out.violation([f, x, int(y)], w, g)
                out.trace([f, x, int(y)], 1, w)
        r = conn.q(f"SELECT {X}{f}(NULL, 1), {X}{f}(1, NULL), {X}{f}(NULL, NULL)")
        if r != [[None] * 3]:
            out.violation([f, "NULL"], None, r)
        out.trace([f, "null"], 3, None)


NUM = sorted({s * (2**k) + d for s in (1, -1) for k in (0, 1, 2, 7, 8, 15, 16, 23, 29, 30, 31) for d in (-2, -1, 0, 1, 2)} | {0, 3, 5, 46340, 46341, -46340, -46341, 65535, 65537, 715827882, 1000000007, -1000000007})
NUM = [n for n in NUM if LO <= n <= HI]


def months(conn, part, out):
    for tz, y0, y1, step in part:
        conn.q(f"SET timezone = '{tz}'")
        r = conn.q(f"""SELECT extract(year FROM t), extract(month FROM t), t::text, days_in_month(t), month_normalize(100, t), month_normalize(7.5, t, 30), month_normalize(-3, t, extract(day FROM t)), to_epoch(t), extract(epoch FROM t)::float8
            FROM generate_series('{y0}-01-01 00:00:00'::timestamptz, '{y1}-12-31 23:59:59.999999', '{step}') t""")
        conn.q("SET timezone = 'UTC'")
        for y, m, t, d, n, n2, n3, e, e2 in r:
            w = calendar.monthrange(int(y), int(m))[1]
            day = int(t[8:10])
            exp = [w, 100 * (365.25 / 12) / w, 7.5 * 30 / w, -3.0 * day / w]
            got = [d] + [n, n2, n3]
            if int(d) != w or any(not close(float(a), b, rtol=1e-13) for a, b in zip(got[1:], exp[1:])):
                out.violation([tz, t], exp, got)
            if float(e) != float(e2):
                out.violation([tz, t, "epoch"], e2, e)
            out.trace([tz, t], 4, w)
    conn.q("SET timezone = 'UTC'")


def epoch(conn, part, out):
    for us in part:
        g = conn.q(f"SELECT to_epoch('{ts(us)}'), to_epoch(NULL::timestamptz), days_in_month(NULL), month_normalize(NULL, now()), month_normalize(1, NULL), month_normalize(1, now(), NULL)")[0]
        w = (us + 946684800000000) / 1e6
        if not close(float(g[0]), w, rtol=1e-15, atol=1e-6) or g[1:] != [None] * 5:
            out.violation(["epoch", us], w, g)
        out.trace(["epoch", us], 2, w)


US = 1000000


def gen(conn, part, out):
    """The series without noise is base + magnitude * sin(t / (2 pi period)); the noise of a seed is the same sequence whatever the other parameters, and scales with the deviation."""
    for start, ln, step, base, period, mag, seed in part:
        def run(sd, sl=ln, b=base, p=period, m=mag):
            f = lambda v: "NULL" if v is None else str(v)
            r = conn.try_q(f"SELECT time, (extract(epoch FROM time) * 1000000)::bigint - 946684800000000, value FROM {X}generate_periodic_normal_series('{ts(start)}', {f(sl)}, {f(step)}, {f(b)}, {f(p)}, {f(m)}, {f(sd)}, {f(seed)}) WITH ORDINALITY o(time, value, n) ORDER BY n")
            return r if isinstance(r, Exception) else [(int(a[1]), float(a[2])) for a in r]
        z = run(0.0)
        L, S, B, P, M = (28 * 86400 * US if ln is None else ln, 600 * US if step is None else step, 1000.0 if base is None else base,
                         86400 * US if period is None else period, 100.0 if mag is None else mag)
        exp = [(start + i, B + math.sin(i / (2.0 * math.pi * P)) * M) for i in range(0, max(L, 0), S)]
        case = ["generate", start, ln, step, base, period, mag, seed]
        if isinstance(z, Exception) or [a for a, _ in z] != [a for a, _ in exp] or any(not close(a, b, rtol=1e-9, atol=1e-9) for (_, a), (_, b) in zip(z, exp)):
            out.violation(case, exp[:5], str(z)[:300])
            continue
        if seed is not None and len(exp) > 0:
            one, again, two, dflt = run(1.0), run(1.0), run(2.0), run(None)
            short = run(1.0, sl=max(1, L // 2))
            other = run(1.0, b=B + 5, m=0.0)
            if any(isinstance(q, Exception) for q in (one, again, two, dflt, short, other)):
                out.violation(case, "rows", str((one, again, two, dflt))[:300])
                continue
            noise = [a[1] - b[1] for a, b in zip(one, exp)]
            ok = one == again and short == one[:len(short)] and len(one) == len(two) == len(dflt) == len(exp)
            tol = dict(rtol=1e-7, atol=1e-7 * (1 + abs(B) + abs(M)))
            ok = ok and all(close(a[1] - e[1], 2 * n, **tol) and close(d[1] - e[1], 100 * n, rtol=1e-6, atol=1e-5) and close(o[1] - (B + 5), n, **tol) for a, d, o, e, n in zip(two, dflt, other, exp, noise))
            # not a constant, and of the right size (checked loosely: the numbers of a seed are fixed)
            ok = ok and (len(noise) < 8 or len(set(noise)) > len(noise) // 2) and all(abs(n) < 7 for n in noise)
            if not ok:
                out.violation(case, "noise of the seed, scaled by the deviation", [one[:4], two[:4], dflt[:4], short[:4], other[:4]])
        out.trace(case, 7, len(exp))


def main_(chk):
    chk.start_pg()
    chk.explore("saturating arithmetic", [(f, NUM[i:i + 8]) for f in FUN for i in range(0, len(NUM), 8)], arith, chunk=2)
    zones = ["UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "Africa/Cairo"] + (["Asia/Beirut", "Europe/Dublin", "Pacific/Kiritimati", "America/St_Johns", "Antarctica/Troll", "Asia/Kathmandu", "Etc/GMT+12"] if chk.thorough else [])
    conn = chk.cl.conn()
    zones = [z for z in zones if not isinstance(conn.try_q(f"SET timezone = '{z}'"), Exception)]
    conn.close()
    span = [(1896, 1912), (1960, 1980), (1996, 2035), (2092, 2104)]
    cases = [(z, y, y, st) for z in zones for a, b in span for y in range(a, b + 1) for st in (["1 day", "23:59:59.9"] if not chk.thorough else ["1 day", "7 hours", "23:59:59.9"])]
    chk.explore("every day of the calendar", cases, months, chunk=4)
    chk.explore("epochs", sorted({s * 10**k * m + d for s in (1, -1) for k in range(0, 17) for m in (1, 3) for d in (-1, 0, 1)}), epoch, chunk=10)
    g = []
    for st in (0, 86400 * US, -12345678901):
        for ln in (0, 1, 59, 60, 61, 600, 3600):
            for step in (1, 7, 60, 1000):
                for base, mag in ((0.0, 0.0), (5.0, 2.0), (-3.5, 100.0)):
                    for period in (1, 60, 600):
                        if ln // step < 700:
                            g.append((st, ln, step, base, period, mag, 1 + (ln + step) % 3))
    g += [(0, None, None, None, None, None, 7), (0, 86400 * US, None, None, None, None, None), (5, None, 86400 * US, 1.0, None, None, -1), (5, None, 86400 * US, None, 3600 * US, 2.0, 2**62), (5, 9, 2, None, 4, None, 0)]
    chk.explore("generated series", g, gen, chunk=12)
    chk.assumptions += ["infinite timestamps are not judged (PostgreSQL's interval arithmetic decides)", "the noise of the generator is judged for determinism, independence of the other parameters and scaling, not for its distribution"]


main(main_)
