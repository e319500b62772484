"""Shared body of the counter_agg and gauge_agg checks."""
import itertools
from fractions import Fraction as F
import metric
from aggrun import run, run_each, schedules, leaves, Err
from mclib import ts, close, pf, lit, fl

SEC = 1000000
ACC = ["num_elements", "num_changes", "num_resets", "delta", "time_delta", "first_val", "last_val", "first_time",
       "last_time", "rate", "idelta_left", "idelta_right", "irate_left", "irate_right", "slope", "intercept", "corr",
       "zero_time"]
SQLF = {"zero_time": {"countersummary": "counter_zero_time", "gaugesummary": "gauge_zero_time"}}
TIMECOLS = ("first_time", "last_time", "zero_time")


class Kind:
    def __init__(self, name):
        self.name = name
        self.counter = name == "counter"
        self.type = name + "summary"
        self.agg = f"{name}_agg(timestamptz,float8)"
        self.aggb = f"{name}_agg(timestamptz,float8,tstzrange)"
        self.rollup = f"rollup({self.type})"
        # gauge_agg has no first/last/num_resets accessors (see the toolkit's function list)
        skip = () if self.counter else ("num_resets", "first_val", "last_val", "first_time", "last_time")
        self.acc = [a for a in ACC if a not in skip]

    def sql(self, alias="a"):
        out = []
        for a in self.acc:
            f = SQLF.get(a, {}).get(self.type, a)
            e = f"{f}({alias})"
            if a in TIMECOLS:
                e = (f"CASE WHEN isfinite({e}) THEN (extract(epoch from {e} - '2000-01-01 UTC'::timestamptz)*1000000)"
                     f"::numeric(30,0) ELSE {e}::text::float8::numeric END")
            out.append(e)
        return out


def rows(points):
    return [[ts(t), v] for t, v in points]


def differs(kind, exp, got):
    """Names of accessors whose value differs from the model, with the values."""
    if exp is None:
        bad = [(a, None, g) for a, g in zip(kind.acc, got) if g is not None]
        return bad
    bad = []
    for a, g in zip(kind.acc, got):
        e = exp[a]
        if isinstance(g, Err):
            bad.append((a, str(e), repr(g)))
            continue
        if e == "any":
            continue
        if a in TIMECOLS:
            if e is None or g is None:
                ok = e is None and g is None
            else:
                ok = abs(float(e)) > 1e15 or abs(float(g) - float(e)) <= (0 if a != "zero_time" else 3 + 1e-7 * abs(float(e)))
        elif a in ("num_elements", "num_changes", "num_resets"):
            ok = g is not None and int(g) == e
        else:
            rt = 1e-9 if a not in ("corr", "intercept", "slope") else 1e-6
            ok = close(None if e is None else float(e), pf(g), rt, rt)
        if not ok:
            bad.append((a, None if e is None else float(e), g))
    return bad


def single_pass(chk, kind, name, cases, tag=None, chunk=None):
    acc = kind.sql()

    def work(conn, part, out):
        res = run(conn, kind.type, kind.agg, acc, [("[*", rows(c)) for c in part])
        for c, r in zip(part, res):
            m = metric.model(c, kind.counter)
            bad = [("all", "a summary", repr(r))] if isinstance(r, Err) else differs(kind, m, r)
            out.trace(c, steps=len(c) + 1, state=None if m is None else tuple(map(str, (m["_ts"], m["_raw"]))))
            if tag:
                tagged = [b for b in bad if tag(c, m, b)]
                if tagged:
                    out.violation(c, tagged[0][1], tagged, tag=tag(c, m, tagged[0]))
                bad = [b for b in bad if not tag(c, m, b)]
            if bad:
                out.violation({"agg": kind.agg, "points": c}, "reference model", bad)
    chk.explore(name, cases, work, **({'chunk': chunk} if chunk else {}))
