"""Reference model of state_agg / compact_state_agg. A row is (time in seconds from 2000-01-01, state); a NULL state is None."""
import json
from mclib import lit, ts

S = 10**6
te = "toolkit_experimental."


class Bad(Exception):
    pass


def build(rows):
    """None | dict(first, last, durations, timeline) ; raises Bad on conflicting states."""
    rows = sorted(((t, s) for t, s in rows if s is not None), key=lambda r: r[0])
    seen = {}
    for t, s in rows:
        if seen.setdefault(t, s) != s:
            raise Bad
    if not seen:
        return None
    ts_ = sorted(seen)
    dur = {}
    for a, b in zip(ts_, ts_[1:] + ts_[-1:]):
        dur[seen[a]] = dur.get(seen[a], 0) + b - a
    tl = []
    for t in ts_:
        if not tl or tl[-1][0] != seen[t]:
            if tl:
                tl[-1][2] = t
            tl.append([seen[t], t, None])
    tl[-1][2] = ts_[-1]
    return {"first": ts_[0], "last": ts_[-1], "dur": dur, "tl": tl}


def interpolate(m, start, ln, prev):
    """extended copy of m: prev's last state from start on, the last state up to start + ln."""
    dur, tl = dict(m["dur"]), [list(x) for x in m["tl"]]
    first, last = m["first"], m["last"]
    if prev and start < first:
        s = prev["tl"][-1][0]
        dur[s] = dur.get(s, 0) + first - start
        if tl[0][0] == s:
            tl[0][1] = start
        else:
            tl.insert(0, [s, start, first])
        first = start
    if start + ln > last:
        dur[tl[-1][0]] += start + ln - last
        tl[-1][2] = last = start + ln
    return {"first": first, "last": last, "dur": dur, "tl": tl}


def in_range(m, s, start, end):
    return sum(max(0, min(e, end) - max(b, start)) for x, b, e in m["tl"] if x == s)


EP = "round(extract(epoch from %s)-946684800)::bigint"


def stlit(kind, s):
    return lit(s) if kind == "text" else f"{s}::bigint"


def table(q, cols):
    c = ",".join((EP % x if x.endswith("_time") else f"round(extract(epoch from {x}))::bigint" if x == "duration" else x) for x in cols)
    return f"(SELECT coalesce(json_agg(json_build_array({c}) ORDER BY o)::text,'[]') FROM ROWS FROM ({q}) WITH ORDINALITY x({','.join(cols)},o))"


class Cols:
    """SQL columns of every accessor and the expected values from the model."""

    def __init__(self, kind, compact, syms, ranges=(), points=(), full=True):
        self.kind, self.compact = kind, compact
        self.sql, self.names, self.exp = [], [], []
        v, tl = ("into_values", "state_timeline") if kind == "text" else ("into_int_values", "state_int_timeline")
        at = "state_at" if kind == "text" else "state_at_int"
        p = te if compact else ""

        def add(name, sql, exp):
            self.names.append(name), self.sql.append(sql), self.exp.append(exp)

        ep = "round(extract(epoch from %s))::bigint::text"
        vals = lambda m: sorted([[s, d] for s, d in m["dur"].items()], key=str)
        add(v, table(f"{p}{v}(a)", ["state", "duration"]), vals)
        for s in syms:
            add(f"duration_in {s!r}", ep % f"{p}duration_in(a, {stlit(kind, s)})", lambda m, s=s: m["dur"].get(s, 0))
        if compact:
            return
        add(tl, table(f"{tl}(a)", ["state", "start_time", "end_time"]), lambda m: m["tl"])
        if full:
            add("-> " + v, f"(SELECT coalesce(json_agg(json_build_array((x).state, round(extract(epoch from (x).duration))::bigint))::text,'[]') FROM (SELECT a -> {v}() x OFFSET 0) y)", vals)
            add("-> " + tl, f"(SELECT coalesce(json_agg(json_build_array((x).state, {EP % '(x).start_time'}, {EP % '(x).end_time'}))::text,'[]') FROM (SELECT a -> {tl}() x OFFSET 0) y)", lambda m: m["tl"])
            add("text form", f"(SELECT (b.b::text = a::text AND {ep % ('duration_in(b, ' + stlit(kind, syms[0]) + ')')} = {ep % ('duration_in(a, ' + stlit(kind, syms[0]) + ')')})::int::text FROM (SELECT a::text::stateagg b) b)", lambda m: 1)
        for s in syms:
            L = stlit(kind, s)
            add(f"state_periods {s!r}", table(f"state_periods(a, {L})", ["start_time", "end_time"]), lambda m, s=s: [[b, e] for x, b, e in m["tl"] if x == s])
            if full:
                add(f"-> state_periods {s!r}", f"(SELECT coalesce(json_agg(json_build_array({EP % '(x).start_time'}, {EP % '(x).end_time'}))::text,'[]') FROM (SELECT a -> state_periods({L}) x OFFSET 0) y)", lambda m, s=s: [[b, e] for x, b, e in m["tl"] if x == s])
                add(f"-> duration_in {s!r}", ep % f"(a -> duration_in({L}))", lambda m, s=s: m["dur"].get(s, 0))
            for st, ln in ranges:
                arg = f"{L}, {lit(ts(st * S))}::timestamptz" + ("" if ln is None else f", {lit(str(ln) + ' s')}::interval")
                e = (lambda m, s=s, st=st, ln=ln: in_range(m, s, st, 10**9 if ln is None else st + ln))
                add(f"duration_in {arg}", ep % f"duration_in(a, {arg})", e)
                if full:
                    add(f"-> duration_in {arg}", ep % f"(a -> duration_in({arg}))", e)
        for t in points:
            e = lambda m, t=t: ([None] + [x for x, b, _ in m["tl"] if b <= t])[-1]
            tx = lit(ts(t * S)) + "::timestamptz"
            add(f"state_at {t}", f"{at}(a, {tx})::text", e)
            if full:
                add(f"-> state_at {t}", f"(a -> {at}({tx}))::text", e)

    def judge(self, m, r):
        """m: model or None (NULL aggregate); r: row of texts."""
        for n, e, g in zip(self.names, self.exp, r):
            if m is None:
                continue
            w = e(m)
            if isinstance(w, list):
                got = json.loads(g)
                if "values" in n:
                    got = sorted(got, key=str)
            else:
                got = g
                w = None if w is None else str(w)
            if got != w:
                return n, w, got
        return None

    def null_ok(self, r):
        """all accessors of a NULL aggregate: no rows, NULL, or zero durations"""
        for n, g in zip(self.names, r):
            if g not in (None, "[]", "0"):
                return n, "nothing", g
        return None
