"""Judge of space-saving aggregates (freq_agg, mcv_agg): the guarantees of the algorithm, not its steps."""
import math, json
from aggrun import Err


def zeta(s):
    n = 60
    r = math.fsum(k ** -s for k in range(1, n))
    r += n ** (1 - s) / (s - 1) + 0.5 * n ** -s
    t = s * n ** (-s - 1) / 12
    r += t
    t *= -(s + 1) * (s + 2) / (n * n) * 12 / 720
    r += t
    return r


def p_eq(s, n):
    return n ** -s / zeta(s)


def p_le(s, n):
    return math.fsum(k ** -s for k in range(1, n + 1)) / zeta(s)


class Par:
    """size = number of counters; freq for freq_agg (topn None), or skew and topn for mcv_agg."""

    def __init__(self, freq=None, topn=0, skew=1.1):
        self.freq, self.topn, self.skew = freq, topn, skew
        if freq is not None:
            self.k = int(1 / freq) + 1
        else:
            x = (1 - p_le(skew, topn - 1)) / p_eq(skew, topn)
            assert abs(x - round(x)) > 1e-6
            self.k = topn - 1 + int(x) + 1


def words(al, n):
    """All sequences of length n up to renaming of the values (None stays itself)."""
    vals = [a for a in al if a is not None]
    null = None in al

    def go(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        if null and n <= 3:
            yield from go(pre + [None], m)
        for i in range(min(m + 1, len(vals))):
            yield from go(pre + [vals[i]], max(m, i + 1))
    return go([], 0)


def setup(conn):
    """topn in all its forms, with errors caught."""
    q = []
    for kind, T in TYPE.items():
        ty = ", NULL::bigint" if kind == "raw" else ""
        forms = [("mtopn", "topn(a, n%s)" % ty), ("mtopd", "topn(a%s)" % ty)]
        if kind != "raw":
            forms += [("mtopna", "a -> topn(n)"), ("mtopda", "a -> topn()")]
        for f, e in forms:
            q.append(f"CREATE OR REPLACE FUNCTION {f}(a {T}, n int) RETURNS text LANGUAGE plpgsql STRICT AS $$ BEGIN "
                     f"RETURN coalesce((SELECT json_agg(v) FROM (SELECT {e} v) x)::text, '[]'); EXCEPTION WHEN OTHERS THEN RETURN 'ERR'; END $$")
    conn.q(";".join(q))


TYPE = {"int8": "spacesavingbigintaggregate", "text": "spacesavingtextaggregate", "raw": "spacesavingaggregate"}


def cols(kind, syms, topns):
    """kind: int8 | text | raw. Every result is rendered as json."""
    c = ["a::text"]
    if kind == "raw":
        c += ["(SELECT json_agg(json_build_array(value, min_freq, max_freq)) FROM into_values(a, 0::bigint) x(value, min_freq, max_freq))", "NULL"]
    else:
        c += ["(SELECT json_agg(json_build_array(value, min_freq, max_freq)) FROM into_values(a) x(value, min_freq, max_freq))",
              "(SELECT json_agg(json_build_array((v).value, (v).min_freq, (v).max_freq)) FROM (SELECT a -> into_values() v OFFSET 0) x)"]
    t = {"int8": "bigint", "raw": "bigint", "text": "text"}[kind]
    for s in syms:
        l = "'" + str(s).replace("'", "''") + f"'::{t}"
        c += [f"min_frequency(a, {l})", f"max_frequency(a, {l})"]
        if kind == "int8":
            c += [f"a -> min_frequency({l})", f"a -> max_frequency({l})"]
    for n in topns:
        f, m = ("mtopd", 0) if n == "default" else ("mtopn", n)
        c.append(f"{f}(a, {m})")
        if kind != "raw":
            c.append(f"{f}a(a, {m})")
    return c


def judge(par, kind, vs, syms, topns, r, eps=1, counts=None):
    """vs: the values (None ignored); r: list of texts (cols) or Err. counts overrides vs."""
    if isinstance(r, Err):
        return "no error", "", repr(r)
    if counts is None:
        counts = {}
        for v in vs:
            if v is not None:
                counts[v] = counts.get(v, 0) + 1
    total = sum(counts.values())
    if not total:
        return None if all(x is None for x in r) else ("NULL", None, repr(r))
    if f"values_seen:{total}," not in r[0]:
        return "values_seen", total, r[0]
    ent = json.loads(r[1])
    names = [e[0] for e in ent]
    if len(set(names)) != len(names) or len(names) > par.k:
        return f"at most {par.k} distinct values", par.k, names
    E = {}
    last = None
    for v, lo, hi in ent:
        n = counts.get(v, 0)
        ilo, ihi = round(lo * total), round(hi * total)
        if abs(ilo / total - lo) > 1e-12 or abs(ihi / total - hi) > 1e-12:
            return "frequencies are counts over the total", total, ent
        if not ilo <= n <= ihi or ilo < 0 or ihi > total:
            return f"bounds of value {v}", n / total, (lo, hi)
        if last is not None and ihi > last:
            return "descending order", "", ent
        last = ihi
        if (ihi - ilo) * par.k > total * eps:
            return f"error of value {v}", f"at most {total}/{par.k}", ent
        E[v] = (lo, hi)
    missing = 0
    for v, n in counts.items():
        if v not in E:
            if len(ent) < par.k:
                return f"value {v} is reported", n / total, ent
            if n > last:
                return f"no more frequent value is left out ({v})", n, ent
            if n * par.k > total * eps:
                return f"value {v} of frequency over 1/{par.k} is reported", n / total, ent
    i = 3
    for s in syms:
        lo, hi = E.get(s, (0.0, 0.0))
        want = (lo, hi) * (2 if kind == "int8" else 1)
        got = [float(x) for x in r[i:i + len(want)]]
        i += len(want)
        if any(abs(x - y) > 1e-12 for x, y in zip(want, got)):
            return f"min/max frequency of {s}", want, got
    if kind != "raw" and json.loads(r[2]) != ent:
        return "-> into_values()", ent, r[2]
    for n in topns:
        m = par.topn if n == "default" else n
        if par.freq is not None:
            want = "ERR" if n == "default" else [v for v in names[:m if m >= 0 else len(names)] if E[v][1] >= par.freq]
        elif m < 0 or m > par.topn:
            want = "ERR"
        elif m == 0:
            want = "ERR" if r[i] == "ERR" else []  # the top nothing: either is fine
        else:
            need = p_le(par.skew, m) * total
            if abs(need - round(need)) < 1e-9 and m:
                want = None
            else:
                want = "ERR" if sum(round(E[v][1] * total) for v in names[:m]) < math.ceil(need) else names[:m]
        for _ in range(1 if kind == "raw" else 2):
            got = r[i] if r[i] == "ERR" else json.loads(r[i])
            i += 1
            if got != want and want is not None:
                return f"topn({n})", want, got
    return None
