"""C19: freq_agg's frequency bounds hold and no frequent value is missed, however the rows are partitioned."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, compositions, lit
from aggrun import run, Err
import partial, freq
from freq import Par, TYPE, cols, judge

ALPH = {"int8": [7, -3, 1 << 62, 0, 5, 6, 8, 9], "text": ["a", "", 'q"\\\n\'é', "B", "b", "long " * 600, "A", "z"], "raw": [7, -3, 1 << 62, 0, 5, 6, 8, 9]}
VT = {"int8": "bigint", "text": "text", "raw": "bigint"}
AGG = {"int8": "toolkit_experimental.freq_agg(float8,bigint)", "text": "toolkit_experimental.freq_agg(float8,text)", "raw": "toolkit_experimental.raw_freq_agg(float8,anyelement)"}


def run_(chk):
    freq.setup(chk.start_pg().conn())
    for kind, f, maxn in (("int8", 0.5, 5), ("int8", 0.75, 4), ("text", 0.5, 4), ("raw", 0.4, 4)):
        al = ALPH[kind][:5]
        par = Par(freq=f)
        syms = al[:2] + [ALPH[kind][7]]
        tn = (-1, 0, 1, 2, 9, "default") if kind == "int8" else (1, 9)
        partial.explore(chk, f"{kind} {f}", TYPE[kind], AGG[kind], f"rollup({TYPE[kind]})", cols(kind, syms, tn), [al + [None]], lambda v: (f, v),
                        lambda vs, r: judge(par, kind, vs, syms, tn, r), chk.pick(maxn, maxn + 1) if kind == "int8" else maxn, roll_max=chk.pick(3, 4),
                        argtypes=["float8", VT[kind]], serialize=(True,), words=freq.words, n4=5, chunk=300)

    # rollup of summaries of consecutive parts of longer streams
    for f, n, np in ((0.5, chk.pick(7, 8), 3), (0.7, chk.pick(8, 9), 2), (0.3, chk.pick(7, 9), 2)):
        par = Par(freq=f)
        cases = []
        for w in freq.words(ALPH["int8"], n):
            for comp in compositions(n):
                if 1 <= len(comp) <= np and (len(comp) < 3 or all(len(b) > 1 for b in comp)):
                    cases.append((w, comp))
        rollwork(chk, f"longer streams, frequency {f}", cases, par, "int8", AGG["int8"], lambda v: (f, v), ["float8", "bigint"], (2,))

    # different parameters: the bounds have to hold with the coarsest
    fs = (0.7, 0.5, 0.2)
    cases = [(w, comp, fr) for w in freq.words(ALPH["int8"], chk.pick(6, 7)) for comp in compositions(len(w)) if len(comp) in (2, 3) for fr in itertools.product(fs, repeat=len(comp)) if len(set(fr)) > 1]

    def work(conn, part, out):
        todo = [(ci, b, f) for ci, (_, comp, fr) in enumerate(part) for b, f in zip(comp, fr)]
        per = {}
        for (ci, b, f), r in zip(todo, run(conn, TYPE["int8"], AGG["int8"], ["a::text"], [("[*", [(f, part[ci][0][i]) for i in b]) for ci, b, f in todo], ["float8", "bigint"])):
            per.setdefault(ci, []).append([r[0]])
        items = [("[" + "012"[:len(per[ci])], per[ci]) for ci in range(len(part))]
        for c, r in zip(part, run(conn, TYPE["int8"], f"rollup({TYPE['int8']})", cols("int8", [], ()), items)):
            out.trace(c, steps=len(c[0]), state=str(c))
            bad = judge(Par(freq=max(c[2])), "int8", c[0], [], (), r)
            if bad:
                out.violation({"rows": c[0], "parts": c[1], "frequencies": c[2]}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of different parameters", cases, work, chunk=60)

    def work2(conn, part, out):
        for q, want in part:
            r = conn.try_q(q)
            out.trace(q, state=q)
            if isinstance(r, Exception) != (want == "error") or not isinstance(r, Exception) and want not in ("any", "error") and r[0][0] != want:
                out.violation(q, want, repr(r)[:400])
    te = "toolkit_experimental."
    qs = [(f"SELECT {te}freq_agg({f}, 1::bigint)::text", "error" if bad else "any") for f, bad in
          (("0", 1), ("1", 1), ("-0.5", 1), ("1.5", 1), ("'NaN'", 1), ("'Infinity'", 1), ("0.0001", 0), ("0.999", 0))]
    a = f"(SELECT {te}raw_freq_agg(0.3, v::%s) FROM generate_series(1,3) v)"
    for t1, t2 in itertools.product(["int", "bigint", "text", "float8", "interval"], repeat=2):
        v = {"interval": "(v || ' s')"}
        x = lambda t: f"(SELECT {te}raw_freq_agg(0.3, {v.get(t, 'v')}::{t}) FROM generate_series(1,3) v)"
        qs.append((f"SELECT rollup(s)::text FROM (SELECT {x(t1)} s UNION ALL SELECT {x(t2)}) u", "any" if t1 == t2 else "error"))
        qs.append((f"SELECT count(*) FROM into_values({x(t1)}, {v.get(t2, '1').replace('v','1')}::{t2})", "3" if t1 == t2 else "error"))
    qs.append(("SELECT rollup(s)::text FROM (SELECT NULL::spacesavingbigintaggregate s UNION ALL SELECT NULL) u", None))
    # round trip of the text form, any stored type
    for t, vals in (("text", ["a\"b", "c\\d", "e'f", "g\nh", "", "é,]", "{(x:1)}"]), ("interval", ["1 day", "-3 months 2 s"]), ("text[]", ['{a,"b c"}', "{}"]),
                    ("uuid", ["00000000-0000-0000-0000-000000000001"]), ("float8", ["NaN", "-0", "0.1", "Infinity"]), ("boolean", ["t", "f"]), ("timestamptz", ["2020-01-01 00:00:00+00", "infinity"]),
                    ("numeric", ["1.50", "NaN", "1e50"]), ("bytea", ["\\x0001ff", "\\x"]), ("name", ["abc"]), ("\"char\"", ["x"]), ("jsonb", ['{"a": "b\\"c"}'])):
        arr = "ARRAY[" + ",".join("'" + v.replace("'", "''") + "'" for v in vals) + f"]::text[]"
        agg = f"(SELECT {te}raw_freq_agg(0.1, v::{t}) FROM unnest({arr}) v)"
        qs.append((f"SELECT ({agg}::text::spacesavingaggregate::text = {agg}::text)::text", "true"))
        qs.append((f"SELECT (array_agg(value::text ORDER BY value::text COLLATE \"C\") = (SELECT array_agg(v::{t}::text ORDER BY v::{t}::text COLLATE \"C\") FROM unnest({arr}) v))::text FROM into_values({agg}::text::spacesavingaggregate, {lit(vals[0])}::{t}) x(value, a, b)", "true"))
    chk.explore("parameters, types and text form", qs, work2, chunk=10)


def rollwork(chk, name, cases, par, kind, AGG, row, argtypes, tn):
    def work(conn, part, out):
        leafs = {}
        todo = sorted({tuple(w[i] for i in b) for w, comp in part for b in comp}, key=str)
        for b, r in zip(todo, run(conn, TYPE[kind], AGG, ["a::text"], [("[*", [row(v) for v in b]) for b in todo], argtypes)):
            leafs[b] = r[0]
        items = [("[" + "0123"[:len(comp)], [[leafs[tuple(w[i] for i in b)]] for b in comp]) for w, comp in part]
        for (w, comp), r in zip(part, run(conn, TYPE[kind], f"rollup({TYPE[kind]})", cols(kind, part[0][0][:1], tn), items)):
            out.trace({"rows": w, "parts": comp}, steps=len(w), state=(name, w, str(comp)))
            bad = judge(par, kind, w, w[:1], tn, r)
            if bad:
                out.violation({"rows": w, "rollup of": comp}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore(name, cases, work, chunk=300)


if __name__ == "__main__":
    main(run_)
