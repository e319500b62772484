"""C24: interpolated state_agg accessors extend the states over the interval exactly as documented."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit
from aggrun import run, Err
from state import build, interpolate, in_range, stlit, table, EP, S, te

AL = {"text": ["a", "ab", "b"], "int": [0, -5, 1 << 62]}


def run_(chk):
    chk.start_pg()
    PREV = [(), (-8,), (-8, -3), (-20, -3)]
    CUR = [(5,), (5, 9), (5, 9, 14)]
    STARTS, LENS = (-3, 0, 5, 7, 14, 16), (0, 3, 5, 9, 14, 30)
    for kind, compact in (("text", 0), ("int", 0), ("text", 1), ("int", 1)):
        al = AL[kind]
        at = "text" if kind == "text" else "bigint"
        T = te + "compactstateagg" if compact else "stateagg"
        agg = (te + "compact_state_agg" if compact else "state_agg") + f"(timestamptz,{at})"
        p = te if compact else ""
        tl = "interpolated_state_timeline" if kind == "text" else "interpolated_state_int_timeline"
        cases = []
        for pt in PREV:
            for pw in itertools.product(al[:2] if len(pt) < 2 else al, repeat=len(pt)):
                if len(pt) == 2 and pw[0] == al[2]:
                    continue
                for ct in CUR:
                    for cw in itertools.product(al if len(ct) < 3 else al[:2], repeat=len(ct)):
                        for st, ln in itertools.product(STARTS, LENS) if chk.thorough or len(pt) < 2 or len(ct) < 3 else (x for i, x in enumerate(itertools.product(STARTS, LENS)) if (i + len(cases)) % 2):
                            cases.append((tuple(zip(pt, pw)), tuple(zip(ct, cw)), st, ln))

        def work(conn, part, out):
            series = sorted({x for c in part for x in c[:2] if x}, key=str)
            txt = {b: r[0] for b, r in zip(series, run(conn, T, agg, ["a::text"], [("[*", [(ts(t * S), s) for t, s in b]) for b in series], ["timestamptz", at]))}
            txt[()] = None
            vals = ",".join(f"({i},{lit(txt[c[1]])}::{T},{'NULL' if txt[c[0]] is None else lit(txt[c[0]])}::{T},{lit(ts(c[2] * S))}::timestamptz,{lit(str(c[3]) + ' s')}::interval)" for i, c in enumerate(part))
            cols, names = [], []
            for s in al:
                L = stlit(kind, s)
                cols.append(f"mctry($q$SELECT round(extract(epoch from {p}interpolated_duration_in(%L::{T},{L},%L,%L,%L::{T})))::bigint::text$q$,a,st,iv,p)")
                names.append(("dur", s))
                if not compact:
                    cols.append(f"mctry($q$SELECT round(extract(epoch from (%L::{T} -> interpolated_duration_in({L},%L::timestamptz,%L::interval,%L::{T}))))::bigint::text$q$,a,st,iv,p)")
                    names.append(("dur", s))
                    cols.append(table(f"interpolated_state_periods(a,{L},st,iv,p)", ["start_time", "end_time"]))
                    names.append(("per", s))
                    cols.append(f"(SELECT coalesce(json_agg(json_build_array({EP % '(x).start_time'}, {EP % '(x).end_time'}))::text,'[]') FROM (SELECT a -> interpolated_state_periods({L},st,iv,p) x OFFSET 0) y)")
                    names.append(("per", s))
            if not compact:
                cols.append(table(f"{tl}(a,st,iv,p)", ["state", "start_time", "end_time"]))
                names.append(("tl", None))
                cols.append(f"(SELECT coalesce(json_agg(json_build_array((x).state, {EP % '(x).start_time'}, {EP % '(x).end_time'}))::text,'[]') FROM (SELECT a -> {tl}(st,iv,p) x OFFSET 0) y)")
                names.append(("tl", None))
            cols = [c if not c.startswith("mctry(") else "mctry(format(" + c[6:] + ")" for c in cols]
            q = f"SELECT i,{','.join(cols)} FROM (VALUES {vals}) v(i,a,p,st,iv) ORDER BY i"
            for c, r in zip(part, conn.q(q)):
                pr, cu, st, ln = c
                out.trace({"agg": agg, "prev": pr, "current": cu, "start": st, "interval": ln}, state=(agg, c))
                m, pm = build(cu), build(pr)
                if pm and pm["last"] > st:
                    dur_err = True
                else:
                    dur_err = compact and not (st <= m["first"] and st + ln >= m["last"])
                x = interpolate(m, st, ln, pm)
                for (k, s), g in zip(names, r[1:]):
                    if k == "dur":
                        isE = g is None or not g.lstrip("-").isdigit()
                        w = "ERR" if dur_err else x["dur"].get(s, 0) if compact else in_range(x, s, st, st + ln)
                        g = "ERR" if isE else int(g)
                    else:
                        g = json.loads(g)
                        if pm and pm["last"] > st:
                            continue
                        w = x["tl"] if k == "tl" else [y[1:] for y in x["tl"] if y[0] == s]
                    if g != w:
                        out.violation({"agg": agg, "prev": pr, "current": cu, "start": st, "interval": ln, "what": k, "state": s}, w, g)
                        break
        chk.explore(f"{agg}", cases, work, chunk=60)

    def work2(conn, part, out):
        for q in part:
            r = conn.try_q(q)
            out.trace(q, state=q)
            if not isinstance(r, Exception):
                out.violation(q, "error", repr(r)[:300])
    x = "'2000-01-01'::timestamptz, '1 day'::interval"
    chk.explore("NULL aggregates and mixed kinds", [f"SELECT interpolated_duration_in(NULL::stateagg, 'a', {x}, NULL::stateagg)", f"SELECT * FROM interpolated_state_timeline(NULL::stateagg, {x}, NULL::stateagg)", f"SELECT * FROM interpolated_state_int_timeline(NULL::stateagg, {x}, NULL::stateagg)",
                f"SELECT * FROM interpolated_state_periods(NULL::stateagg, 'a', {x}, NULL::stateagg)", f"SELECT {te}interpolated_duration_in(NULL::{te}compactstateagg, 'a', {x}, NULL::{te}compactstateagg)",
                f"SELECT interpolated_duration_in((SELECT state_agg('2000-01-01', 'a'::text)), 'a', {x}, (SELECT state_agg('1999-01-01', 1::bigint)))",
                f"SELECT interpolated_duration_in((SELECT state_agg('2000-01-01', 'a'::text)), 1, {x}, NULL)"], work2, chunk=3)


if __name__ == "__main__":
    main(run_)
