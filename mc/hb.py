"""Reference model of heartbeat_agg. Times are seconds from 2000-01-01."""
import json
from mclib import lit, ts
from state import EP, table, S


def union(rs):
    out = []
    for a, b in sorted(rs):
        if a >= b:
            continue
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


class Agg:
    def __init__(self, start, end, L, live):
        self.start, self.end, self.L, self.live = start, end, L, union([max(a, start), min(b, end)] for a, b in live)

    @staticmethod
    def of(start, ln, L, beats):
        return Agg(start, start + ln, L, [(h, h + L) for h in beats])

    def dead(self):
        out, t = [], self.start
        for a, b in self.live:
            out.append([t, a])
            t = b
        return [x for x in out + [[t, self.end]] if x[0] < x[1]]


EP0 = "round(extract(epoch from %s))::bigint"


class Cols:
    def __init__(self, points=(), full=True):
        self.sql, self.exp, self.names = [], [], []

        def add(n, sql, e):
            self.names.append(n), self.sql.append(sql), self.exp.append(e)
        for fn, e in (("live_ranges", lambda m: m.live), ("dead_ranges", lambda m: m.dead())):
            add(fn, f"(SELECT coalesce(json_agg(json_build_array({EP % 's'},{EP % 'e'}) ORDER BY o)::text,'[]') FROM {fn}(a) WITH ORDINALITY x(s,e,o))", e)
            if full:
                add("-> " + fn, f"(SELECT coalesce(json_agg(json_build_array({EP % '(x).start'},{EP % '(x).end'}))::text,'[]') FROM (SELECT a -> {fn}() x OFFSET 0) y)", e)
        up = lambda m: sum(b - a for a, b in m.live)
        for fn, sql, e in (("uptime", EP0, up), ("downtime", EP0, lambda m: m.end - m.start - up(m)), ("num_live_ranges", "%s", lambda m: len(m.live)), ("num_gaps", "%s", lambda m: len(m.dead()))):
            add(fn, sql % f"{fn}(a)" + "::text", e)
            if full:
                add("-> " + fn, sql % f"(a -> {fn}())" + "::text", e)
        for t in points:
            e = lambda m, t=t: "ERR" if not m.start <= t <= m.end else int(any(a <= t < b for a, b in m.live))
            tx = lit(ts(t * S)) + "::timestamptz"
            add(f"live_at {t}", f"mctry(format('SELECT live_at(%L::heartbeatagg, {tx.replace(chr(39), chr(39) * 2)})::int', a))", e)
            if full:
                add(f"-> live_at {t}", f"mctry(format('SELECT (%L::heartbeatagg -> live_at({tx.replace(chr(39), chr(39) * 2)}))::int', a))", e)
        if full:
            add("text form", "(a::text::heartbeatagg = a)::int::text", lambda m: 1)
            add("<>", "(a::text::heartbeatagg <> a)::int::text", lambda m: 0)

    def judge(self, m, r):
        for n, e, g in zip(self.names, self.exp, r):
            w = e(m)
            if isinstance(w, list):
                g = json.loads(g)
            elif w == "ERR":
                g = "ERR" if g.startswith("ERR") else g
            else:
                w = str(w)
            if g != w:
                return n, w, g
        return None
