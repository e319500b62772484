"""C33: a chain of pipeline elements gives the same however it is written, folded by the planner, or finished."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import pipe as P, tv as V

S = P.S
N = math.nan
TE = "toolkit_experimental"
TV = "public.timevector_tstz_f64"

SERIES = {
    "empty": [],
    "one": [(0, 1.5, False)],
    "inc": [(0, 1.0, False), (S, 2.0, False), (3 * S, 4.0, False), (7 * S, 7.0, False)],
    "mixed": [(0, -2.0, False), (2 * S, 3.5, False), (2 * S, 0.0, False), (5 * S, -1.0, False), (6 * S, 8.0, False)],
    "unsorted": [(4 * S, 1.0, False), (0, -3.0, False), (2 * S, 5.0, False)],
    "nulls": [(0, 1.0, False), (S, N, True), (2 * S, -4.0, False), (4 * S, 6.0, False)],
    "special": [(0, math.inf, False), (S, 0.0, False), (2 * S, -7.0, False)],
}
# long enough to be compressed and moved out of line
LONG = {
    "long": [(i * S, float((i * 7919) % 1009 - 500) / 4, False) for i in range(3000)],
    "longnull": [(i * S, N if i % 5 == 2 else float(i % 97), i % 5 == 2) for i in range(700)],
}
NAMES = ["add(1.0::float8)", "mul(-2.5::float8)", "abs()", "sqrt()", "sort()", "delta()", "lttb(2)", "lttb(99)", "fill_to('1 s', 'locf')",
         "fill_to('2 s', 'linear')", "filter($$ $value > 0 $$)", "map($$ $value * 2 + 1 $$)",
         "map($$ ('2000-01-01 00:00:05+00't - '1 s'i * $value, -$value) $$)", "map_data('mc_half')", "map_series('mc_tv')", "fill_to('0 s', 'locf')"]

PLFN = f"""
CREATE OR REPLACE FUNCTION mc_run1(a {TV}, p {TE}.unstabletimevectorpipeline) RETURNS text LANGUAGE plpgsql AS 'BEGIN RETURN (a -> p)::text; END';
CREATE OR REPLACE FUNCTION mc_run2(a {TV}, p {TE}.unstabletimevectorpipeline, q {TE}.unstabletimevectorpipeline) RETURNS text LANGUAGE plpgsql AS 'BEGIN RETURN (a -> p -> q)::text; END';
CREATE OR REPLACE FUNCTION mc_run3(a {TV}, p {TE}.unstabletimevectorpipeline, q {TE}.unstabletimevectorpipeline, r {TE}.unstabletimevectorpipeline) RETURNS text LANGUAGE plpgsql AS 'BEGIN RETURN (a -> (p -> q) -> r)::text; END'
"""


EL = {}
E0 = P.elements()
for _n in NAMES:
    _alias = {"fill_to('2 s', 'linear')": "fill_to('2 s', 'LINEAR')"}.get(_n, _n)
    if _n.startswith(("add", "mul")):
        _r = 1.0 if _n.startswith("add") else -2.5
        EL[_n] = (P.q(_n), P.mapv(lambda x, r=_r, f=P.BINARY[_n[:3]]: f(x, r)))
    else:
        EL[_n] = (_n if _n == "delta()" else P.q(_n), E0[_alias][1])


def known(fs, names, s):
    """The series after the elements, following what the flags claim: filters and maps may leave a series sorted or free
    of nulls without it being known. None if an element must refuse, 'maybe' if it may."""
    maybe = False
    sorted_known, nulls_known = P.is_sorted(s), P.nulls(s)
    for f, n in zip(fs, names):
        needs = n.startswith(("delta", "fill_to", "lttb"))
        nn = n.startswith(("delta", "fill_to"))
        try:
            r = f(s)
        except P.PErr:
            return None
        except P.PSkip:
            return s, "skip"
        if needs and not sorted_known or nn and nulls_known:
            maybe = True
        if n.startswith(("sort", "map_series", "delta", "fill_to")) or P.is_sorted(r) and sorted_known:
            sorted_known = P.is_sorted(r)
        if n.startswith("map_series"):
            nulls_known = False
        s = r
    return s, maybe


def same(exp, got):
    return len(exp) == len(got) and all(t == u and bool(z) == y and (z or V.same(v, w, 1e-12) or abs(v) < 1e-300 and abs(w) < 1e-300) for (t, v, z), (u, w, y) in zip(exp, got))


def setup(chk):
    conn = chk.cl.conn()
    for st in (P.SETUP + ";\n" + PLFN).split(";\n"):
        if st.strip():
            conn.q(st)
    conn.q(f"CREATE TABLE mc_s (name text, a {TV})")
    for k, s in {**SERIES, **LONG}.items():
        conn.q(f"INSERT INTO mc_s SELECT {lit(k)}, {lit(P.text(s))}::{TV}")


def arrows(first, els):
    return " -> ".join([first] + els)


def forms(name, s, els):
    """(form, query): all of them must agree"""
    const = f"{lit(P.text(s))}::{TV}" if len(s) < 100 else None
    col = f"FROM mc_s WHERE name = '{name}'"
    n = len(els)
    out = [("columns and constants", f"SELECT ({arrows('a', els)})::text {col}")]
    if const:
        out.append(("constants", f"SELECT ({arrows(const, els)})::text"))
    sub = f"FROM (SELECT {', '.join(f'{e} AS p{i}' for i, e in enumerate(els))} OFFSET 0) x, mc_s WHERE name = '{name}'"
    ps = [f"p{i}" for i in range(n)]
    out.append(("columns", f"SELECT ({arrows('a', ps)})::text {sub}"))
    st = f"SELECT a {col}"
    for e in els:
        st = f"SELECT a -> {e} AS a FROM (SELECT a FROM ({st}) x OFFSET 0) y"
    out.append(("step by step", f"SELECT a::text FROM ({st}) z"))
    out.append(("materialized", f"SELECT ({arrows('a', els)} -> {TE}.materialize())::text {col}"))
    out.append(("materialized in the middle", f"SELECT ({arrows('a', [els[0], TE + '.materialize()'] + els[1:])} -> {TE}.materialize())::text {col}"))
    out.append(("pl", f"SELECT mc_run{n}({', '.join(['a'] + els)}) {col}"))
    if n > 1:
        out.append(("one pipeline", f"SELECT (a -> ({arrows(els[0], els[1:])}))::text {col}"))
        out.append(("one pipeline of columns", f"SELECT (a -> ({arrows('p0', ps[1:])}))::text {sub}"))
        out.append(("text form", f"SELECT (a -> ({arrows(els[0], els[1:])})::text::{TE}.unstabletimevectorpipeline)::text {col}"))
        out.append(("constants and columns", f"SELECT ({arrows('a', [els[0]] + ps[1:])})::text {sub}"))
        out.append(("finalized pipeline", f"SELECT (a -> ({arrows(els[0], els[1:])} -> {TE}.materialize()))::text {col}"))
    if n > 2:
        out.append(("right grouping", f"SELECT (a -> {els[0]} -> ({els[1]} -> {els[2]}))::text {col}"))
        out.append(("left grouping", f"SELECT (a -> ({els[0]} -> {els[1]}) -> {els[2]})::text {col}"))
        out.append(("right grouping of pipelines", f"SELECT (a -> ({els[0]} -> ({els[1]} -> {els[2]})))::text {col}"))
        out.append(("columns in the middle", f"SELECT ({arrows('a', [els[0], 'p1', els[2]])})::text {sub}"))
        out.append(("columns last", f"SELECT ({arrows('a', [els[0], els[1], 'p2'])})::text {sub}"))
    return out


FINS = {
    "stats_agg": (TE + ".stats_agg()", "(SELECT stats_agg(v)::text FROM unnest(b) y(t, v))"),
    "sum": ("sum()", "(SELECT sum(stats_agg(v))::text FROM unnest(b) y(t, v))"),
    "average": ("average()", "(SELECT average(stats_agg(v))::text FROM unnest(b) y(t, v))"),
    "num_vals": ("num_vals()", "(SELECT count(*)::text FROM unnest(b) y(t, v))"),
    "counter_agg": (TE + ".counter_agg()", "(SELECT counter_agg(t, v)::text FROM unnest(b) y(t, v))"),
    "hyperloglog": (TE + ".hyperloglog(64)", "(SELECT hyperloglog(64, v)::text FROM unnest(b) y(t, v))"),
    "percentile_agg": (TE + ".percentile_agg()", "(SELECT percentile_agg(v)::text FROM unnest(b) y(t, v))"),
}
WITHFN = {"stats_agg": "finalize_with_stats_agg", "counter_agg": "finalize_with_counter_agg", "hyperloglog": "finalize_with_hyperloglog", "percentile_agg": "finalize_with_percentile_agg"}


def fin_forms(name, els, fn):
    f = FINS[fn][0]
    col = f"FROM mc_s WHERE name = '{name}'"
    fin = lambda p: f"{TE}.{WITHFN[fn]}({p}, {f})" if fn in WITHFN else f"({p} -> {f})"
    typed = f if fn in WITHFN else f"{f}::{TE}.pipelinethen{fn.replace('_', '').replace('numvals', 'numvals')}"
    out = [("columns and constants", f"SELECT ({arrows('a', els + [f])})::text {col}")]
    sub = f"FROM (SELECT {', '.join([f'{e} AS p{i}' for i, e in enumerate(els)] + [f'{typed} AS f'])} OFFSET 0) x, mc_s WHERE name = '{name}'"
    out.append(("columns", f"SELECT ({arrows('a', [f'p{i}' for i in range(len(els))] + ['f'])})::text {sub}"))
    if els:
        pipe = arrows(els[0], els[1:])
        out.append(("finalized pipeline", f"SELECT (a -> {fin('(' + pipe + ')')})::text {col}"))
        out.append(("materialized first", f"SELECT ({arrows('a', els + [TE + '.materialize()', f])})::text {col}"))
        out.append(("text form", f"SELECT (a -> {fin('(' + pipe + ')')}::text::{TE}.pipelinethen{fn.replace('_', '')})::text {col}"))
    if len(els) > 1:
        out.append(("last finalized", f"SELECT ({arrows('a', els[:-1] + [fin(els[-1])])})::text {col}"))
        if fn in WITHFN:
            out.append(("finalized twice", f"SELECT (a -> {TE}.{WITHFN[fn]}({els[0]}, {fin(els[1])}))::text {col}"))
        else:
            out.append(("finalized twice", f"SELECT (a -> ({els[0]} -> ({els[1]} -> {f})))::text {col}"))
    return out


def run(chk):
    chk.start_pg()
    setup(chk)
    E = EL
    allser = {**SERIES, **LONG}
    cases = []
    for n in (1, 2, 3):
        names = NAMES if n < 3 or chk.thorough else [x for x in NAMES if not x.startswith(("sqrt", "lttb(99", "map($$ $value", "add"))]
        for els in itertools.product(range(len(NAMES)), repeat=n):
            if any(NAMES[e] not in names for e in els):
                continue
            for k in allser:
                if k in LONG and n == 3:
                    continue
                if n == 3 and not chk.thorough and k in ("one", "inc"):
                    continue
                cases.append((els, k))

    def ask(conn, qs):
        return [r[0] if r[0] is not None else "(null)" for r in conn.q("SELECT mctry(x) FROM unnest(ARRAY[" + ",".join(lit(x) for x in qs) + "]) WITH ORDINALITY y(x, o) ORDER BY o")]

    def work(conn, part, out):
        qs, meta = [], []
        for els, k in part:
            f = forms(k, allser[k], [E[NAMES[e]][0] for e in els])
            meta.append((len(qs), [x for x, _ in f]))
            qs += [x for _, x in f]
        res = ask(conn, qs)
        for (els, k), (o, fs) in zip(part, meta):
            names = [NAMES[e] for e in els]
            got = res[o:o + len(fs)]
            case = {"series": k, "elements": names}
            out.trace(case, steps=len(fs) * len(els), state=(k, els))
            m = known([E[n][1] for n in names], names, list(allser[k]))
            first = got[0]
            err = first.startswith("ERR")
            if m and m[1] == "skip":
                pass
            elif m is None:
                if not err:
                    out.violation(case, "an error", first[:2000])
                    continue
            elif err:
                if not m[1]:
                    out.violation(case, str(m[0])[:2000], first)
                    continue
            else:
                g = V.parse(first, strict=False)
                if isinstance(g, str) or not same(m[0], [(t, N if v is None else v, z) for (t, v), z in zip(g.pts, g.nulls)]):
                    out.violation(case, str(m[0])[:2000], first[:2000])
                    continue
            for f, x in zip(fs, got):
                if x.startswith("ERR") != err or not err and x != first:
                    out.violation({**case, "form": f}, first[:2000], x[:2000])
                    break
    chk.explore("sequences of elements x ways to write them", cases, work, chunk=60)

    # finalizers
    fc = []
    for n in (0, 1, 2):
        for els in itertools.product(range(len(NAMES)), repeat=n):
            for k in allser:
                if k in LONG and n == 2:
                    continue
                for fn in FINS:
                    fc.append((els, k, fn))

    def work_fin(conn, part, out):
        qs, meta = [], []
        for els, k, fn in part:
            e = [E[NAMES[x]][0] for x in els]
            st = f"SELECT a FROM mc_s WHERE name = '{k}'"
            for x in e:
                st = f"SELECT a -> {x} AS a FROM (SELECT a FROM ({st}) x OFFSET 0) y"
            ref = f"SELECT {FINS[fn][1]} FROM (SELECT a AS b FROM ({st}) z OFFSET 0) w"
            f = fin_forms(k, e, fn)
            meta.append((len(qs), [x for x, _ in f]))
            qs.append(ref)
            qs += [x for _, x in f]
        res = ask(conn, qs)
        for (els, k, fn), (o, fs) in zip(part, meta):
            names = [NAMES[e] for e in els]
            case = {"series": k, "elements": names, "finalizer": fn}
            out.trace(case, steps=len(fs) * (len(els) + 1), state=(k, els, fn))
            ref, got = res[o], res[o + 1:o + 1 + len(fs)]
            m = known([E[n][1] for n in names], names, list(allser[k]))
            first, err = got[0], got[0].startswith("ERR")
            for f, x in zip(fs, got):
                if x.startswith("ERR") != err or not err and x != first:
                    out.violation({**case, "form": f}, first[:2000], x[:2000])
                    break
            if m is None or ref.startswith("ERR"):
                if not err and m is None:
                    out.violation(case, "an error", first[:2000])
                continue
            s = m[0]
            if m[1] == "skip":
                if fn not in ("counter_agg",) and k != "longnull" and first != ref:
                    out.violation(case, ref[:2000], first[:2000])
                continue
            if P.nulls(s):
                if fn in ("stats_agg", "sum", "average"):
                    if not err:
                        out.violation(case, "an error", first[:2000])
                    continue
                if fn != "num_vals":
                    continue   # what null points mean to the others is not specified
            if m[1] and err:
                continue
            if fn in ("stats_agg", "sum", "average") and err and P.nulls(allser[k]):
                continue       # nulls that were filtered out may still be marked
            if fn == "counter_agg":
                # no order of its own: unsorted points are refused, and equal times as well
                if any(a[0] > b[0] for a, b in zip(s, s[1:])):
                    if not err:
                        out.violation(case, "an error", first[:2000])
                    continue
                if len({p[0] for p in s}) < len(s):
                    continue
            if fn in ("stats_agg", "sum", "average") and not s:
                # of no points: an empty summary
                if err:
                    out.violation(case, "no error", first)
                continue
            if fn in ("percentile_agg", "hyperloglog") and not s and not err:
                continue       # an empty sketch rather than the aggregate's NULL
            if first != ref:
                out.violation(case, ref[:2000], first[:2000])
    chk.explore("finalizers", fc, work_fin, chunk=60)

    # unnest() as a finalizer
    uc = [(els, k) for n in (0, 1, 2) for els in itertools.product(range(len(NAMES)), repeat=n) for k in allser if not (k in LONG and n == 2)]

    def work_u(conn, part, out):
        qs = []
        for els, k in part:
            e = [E[NAMES[x]][0] for x in els]
            st = f"SELECT a FROM mc_s WHERE name = '{k}'"
            for x in e:
                st = f"SELECT a -> {x} AS a FROM (SELECT a FROM ({st}) x OFFSET 0) y"
            qs.append(f"SELECT array_agg(y)::text FROM ({st}) z, unnest(a) y")
            qs.append(f"SELECT array_agg(y)::text FROM (SELECT {arrows('a', e + [TE + '.unnest()'])} AS y FROM mc_s WHERE name = '{k}') z")
            qs.append(f"SELECT array_agg(y)::text FROM (SELECT a -> ({arrows(e[0], e[1:] + [TE + '.unnest()'])}) AS y FROM mc_s WHERE name = '{k}') z" if e else qs[-1])
        res = ask(conn, qs)
        for i, (els, k) in enumerate(part):
            case = {"series": k, "elements": [NAMES[e] for e in els], "finalizer": "unnest"}
            out.trace(case, steps=3, state=(k, els))
            a, b, c = res[3 * i:3 * i + 3]
            for x in (b, c):
                if x.startswith("ERR") != a.startswith("ERR") or not x.startswith("ERR") and x != a:
                    out.violation(case, a[:2000], x[:2000])
                    break
    chk.explore("unnest() at the end", uc, work_u, chunk=60)

    # NULL at every position gives NULL
    nc = []
    for els in itertools.product(("NULL", "s"), repeat=3):
        if "NULL" in els:
            nc.append(els)

    def work_n(conn, part, out):
        for c in part:
            a = f"NULL::{TV}" if c[0] == "NULL" else f"{lit(P.text(SERIES['inc']))}::{TV}"
            p, r = [f"NULL::{TE}.unstabletimevectorpipeline" if x == "NULL" else f"{TE}.abs()" for x in c[1:]]
            for qq in (f"SELECT ({a} -> {p} -> {r})::text", f"SELECT ({a} -> ({p} -> {r}))::text",
                       f"SELECT (a -> {p} -> {r})::text FROM (SELECT {a} AS a OFFSET 0) x",
                       f"SELECT (a -> p -> {r})::text FROM (SELECT {a} AS a, {p} AS p OFFSET 0) x",
                       f"SELECT (a -> {p} -> r)::text FROM (SELECT {a} AS a, {r} AS r OFFSET 0) x",
                       f"SELECT (a -> {p} -> {r} -> {TE}.stats_agg())::text FROM (SELECT {a} AS a OFFSET 0) x"):
                g = ask(conn, [qq])[0]
                out.trace(c, steps=1, state=qq)
                if g != "(null)":
                    out.violation({"query": qq}, None, g)
    chk.explore("NULL", nc, work_n, chunk=1)


if __name__ == "__main__":
    main(run)
