"""C20: mcv_agg's frequency bounds hold, and topn answers exactly when the data is skewed enough."""
import os, sys, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, compositions
from aggrun import run, Err
import partial, freq
from freq import Par, TYPE, cols, judge
from c19 import ALPH, VT, rollwork


def run_(chk):
    freq.setup(chk.start_pg().conn())
    for kind, n, skew, maxn in (("int8", 1, 1.5, 5), ("int8", 2, 2.0, 4), ("text", 1, 2.5, 4), ("raw", 1, 1.5, 4)):
        al = ALPH[kind][:5]
        par = Par(topn=n, skew=skew)
        syms = al[:2] + [ALPH[kind][7]]
        tn = (-1, 0, 1, 2, 3, "default")
        agg = f"{'raw_' if kind == 'raw' else ''}mcv_agg(int,float8,{'anyelement' if kind == 'raw' else VT[kind]})"
        partial.explore(chk, f"{kind} {n} {skew}", TYPE[kind], agg, f"rollup({TYPE[kind]})", cols(kind, syms, tn), [al + [None]], lambda v: (n, skew, v),
                        lambda vs, r: judge(par, kind, vs, syms, tn, r), chk.pick(maxn, maxn + 1) if kind == "int8" else maxn, roll_max=chk.pick(3, 4),
                        argtypes=["int", "float8", VT[kind]], serialize=(True,), words=freq.words, n4=5, chunk=300)
    for n, skew, ln, np in ((1, 1.5, chk.pick(7, 8), 3), (1, 2.5, chk.pick(8, 9), 2), (2, 2.0, chk.pick(7, 9), 2)):
        cases = [(w, comp) for w in freq.words(ALPH["int8"], ln) for comp in compositions(ln) if len(comp) <= np and (len(comp) < 3 or all(len(b) > 1 for b in comp))]
        rollwork(chk, f"longer streams, n={n} skew={skew}", cases, Par(topn=n, skew=skew), "int8", "mcv_agg(int,float8,bigint)", lambda v: (n, skew, v), ["int", "float8", "bigint"], (1, "default"))

    # default and other parameters on longer streams of many values, several orders and partitions
    cs = []
    for n, skew in ((1, None), (3, None), (10, None), (5, 1.5), (3, 3.0), (20, 1.01)):
        for m, s in itertools.product((5, 15, 60), (0.0, 0.7, 1.1, 2.0, 3.0)):
            for order in ("grouped", "reversed", "interleaved", "rare first"):
                for cut in (1, 2, 5):
                    cs.append((n, skew, m, s, order, cut))

    def stream(m, s, order):
        cnt = {i + 1: max(1, int(200 * (i + 1) ** -s)) if s else 12 for i in range(m)}
        if order == "grouped":
            return [v for v in cnt for _ in range(cnt[v])]
        if order in ("reversed", "rare first"):
            out = [v for v in sorted(cnt, key=lambda v: -v) for _ in range(cnt[v])]
            return out if order == "reversed" else out[::2] + out[1::2]
        out = []
        left = dict(cnt)
        while any(left.values()):
            for v in left:
                if left[v]:
                    out.append(v)
                    left[v] -= 1
        return out

    def work(conn, part, out):
        for n, skew, m, s, order, cut in part:
            st = stream(m, s, order)
            par = Par(topn=n, skew=skew or 1.1)
            tn = [0, 1, n, n + 1, "default"]
            args = f"{n}," + (f"{skew}," if skew else "")
            rows = "(VALUES " + ",".join(f"({i},{v}::bigint)" for i, v in enumerate(st)) + ") t(i, v)"
            if cut == 1:
                q = f"SELECT mcv_agg({args} v ORDER BY i) a FROM {rows}"
            else:
                q = f"SELECT rollup(s ORDER BY k DESC) a FROM (SELECT i * {cut} / {len(st)} k, mcv_agg({args} v ORDER BY i) s FROM {rows} GROUP BY 1) x"
            r = conn.q(f"SELECT {','.join(cols('int8', [1, 2, m, m + 1], tn))} FROM ({q}) x")[0]
            case = {"n": n, "skew": skew, "values": m, "zipf": s, "order": order, "parts": cut}
            out.trace(case, steps=len(st), state=(n, skew, m, s, order, cut))
            bad = judge(par, "int8", st, [1, 2, m, m + 1], tn, r)
            if bad:
                out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("long streams", cs, work, chunk=10)

    def work2(conn, part, out):
        for q, want in part:
            r = conn.try_q(q)
            out.trace(q, state=q)
            if isinstance(r, Exception) != (want == "error") or not isinstance(r, Exception) and want not in ("any", "error") and r[0][0] != want:
                out.violation(q, want, repr(r)[:400])
    qs = []
    for f, t in (("mcv_agg", "bigint"), ("mcv_agg", "text"), ("raw_mcv_agg", "int"), ("raw_mcv_agg", "text")):
        for n, bad in (("0", 1), ("-1", 1), ("1", 0), ("100", 0)):
            qs.append((f"SELECT {f}({n}, '1'::{t})::text", "error" if bad else "any"))
        for s, bad in (("1", 1), ("0", 1), ("-2", 1), ("'NaN'", 1), ("1.0001", 0), ("50", 0)):
            qs.append((f"SELECT {f}(3, {s}, '1'::{t})::text", "error" if bad else "any"))
        # the default skew is 1.1
        qs.append((f"SELECT ({f}(3, v::{t})::text = {f}(3, 1.1, v::{t})::text)::text FROM generate_series(1, 40) v", "true"))
    for n in ("-1", "-2147483648", "4294967297", "4294967296", "2147483648", "4294967295", "-4294967296"):
        qs.append((f"SELECT mcv_agg(3, 1::bigint) -> topn({n})", "error"))
        qs.append((f"SELECT mcv_agg(3, 'x'::text) -> topn({n})", "error"))
    for t1, t2 in itertools.product(["int", "bigint", "text", "float8"], repeat=2):
        x = lambda t: f"(SELECT raw_mcv_agg(3, v::{t}) FROM generate_series(1,3) v)"
        qs.append((f"SELECT rollup(s)::text FROM (SELECT {x(t1)} s UNION ALL SELECT {x(t2)}) u", "any" if t1 == t2 else "error"))
        qs.append((f"SELECT count(*) FROM topn({x(t1)}, 1, '1'::{t2})", "1" if t1 == t2 else "error"))
    # mixed parameters: as the coarser of them
    for (n1, s1), (n2, s2) in itertools.product([(1, 1.5), (1, 3.0), (2, 2.0), (5, 1.1)], repeat=2):
        c = min([(n1, s1), (n2, s2)], key=lambda p: Par(topn=p[0], skew=p[1]).k)
        qs.append((f"SELECT (substring(rollup(s)::text from 'topn:([0-9]+)')::int = {c[0]} AND substring(rollup(s)::text from 'freq_param:([^,]*)')::float8 = {c[1]})::text FROM (SELECT mcv_agg({n1}, {s1}, v::bigint) s FROM generate_series(1, 9) v UNION ALL SELECT mcv_agg({n2}, {s2}, v::bigint) FROM generate_series(3, 9) v) x", "true"))
    chk.explore("parameters", qs, work2, chunk=10)


if __name__ == "__main__":
    main(run_)
