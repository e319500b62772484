"""C16: tdigest from partial aggregates, rollup, window frames and the C library describes exactly the rows it was given."""
import os, sys, itertools, math, ctypes, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
import mclib
from mclib import main, lit, fl
from aggrun import run, Err, schedules
import partial
from tdig import *

T, AGG = "tdigest", "tdigest(int,float8)"
NAN = math.nan


def run_(chk):
    for al, size in (([-3.0, 0.0, 1.5], 20), ([0.1, None, 1e6], 20), ([2.0, NAN, 7.5], 3)):
        probes = sorted({v for v in al if v is not None and v == v} | {-5.0, 0.2, 5.0, 2e6})
        small = size == 20
        partial.explore(chk, f"tdigest({size}) of {al}", T, AGG, "rollup(tdigest)", cols(probes), [al],
                        lambda v: (size, v), lambda vs, r: judge(vs, size, probes, r, 1.0 if small else 2.0), chk.pick(4, 5), roll_max=3)

    # parts that overflow the buffer and the digest
    S = {"a": order(SER["linear"](130), "mix"), "b": SER["geometric"](60), "c": order(SER["signed"](90), "down"), "d": [0.1] * 33, "e": [5.5], "f": []}

    def work(conn, part, out):
        for size in (10, 50):
            lf = {k: run(conn, T, AGG, ["a::text"], [("[*", [(size, v) for v in S[k]])])[0] for k in S}
            for c in part:
                vs = [v for k in c for v in S[k]]
                if not vs:
                    continue
                s = sorted(vs)
                probes = sorted({s[0] - 1, s[0], s[len(s) // 3], s[len(s) // 2], s[-1], s[-1] + 1})
                items = [(p, [[lf[k][0]] for k in c]) for p in ["[" + "012"[:len(c)], "[" + "".join(x + "f" for x in "012"[:len(c)])] + list(schedules(len(c), perms=False))]
                for (p, _), r in zip(items, run(conn, T, "rollup(tdigest)", cols(probes), items)):
                    out.trace({"size": size, "rollup of": c, "schedule": p}, steps=len(p), state=(size, c, p))
                    bad = judge(vs, size, probes, r, 2.0)
                    if bad:
                        out.violation({"size": size, "rollup of": c, "schedule": p}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("rollup of large digests", list(itertools.product(S, repeat=2)) + list(itertools.permutations(S, 3))[::chk.pick(3, 1)], work, chunk=4)

    # large partial states combined in process (rows are distributed over the partials by a fixed rule)
    def work1(conn, part, out):
        for size, n, nm, rule, tree in part:
            vs = order(SER[nm](n), "perm")
            s = sorted(vs)
            probes = sorted({s[0] - 1, s[0], s[n // 2], s[-1], s[-1] + 1})
            blocks = [[i for i in range(n) if (i * 3 // n if rule else i % 3) == k] for k in range(3)]
            # mcrun addresses at most 60 rows: a block is one array row per symbol
            SYM = mclib.SYM
            prog = {0: "[{0}[{1}+[{2}+", 1: "[{0}[{1}[{2}++", 2: "[[{0}s+[{1}s+[{2}s+", 3: "[[{0}s+[{1}+f[{2}s+"}[tree]
            prog = prog.format(*("".join(SYM[i] for i in b) for b in blocks))
            r = run(conn, T, AGG, cols(probes), [(prog, [(size, v) for v in vs])])[0]
            out.trace({"size": size, "n": n, "series": nm, "schedule": prog}, steps=n, state=(size, n, nm, rule, tree))
            bad = judge(vs, size, probes, r, 2.0)
            if bad:
                out.violation({"size": size, "n": n, "series": nm, "schedule": prog}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("large partials", [(size, n, nm, rule, tree) for size in (4, 7, 15) for n in (9, 20, 40) for nm in SER for rule in (0, 1) for tree in range(4)], work1)

    # window frames: the aggregate state is finalized once per row and used on
    def work2(conn, part, out):
        for vs, lo in part:
            probes = [0.5, 2.0]
            v = ",".join(f"({i},{lit(x)}::float8)" for i, x in enumerate(vs))
            cc = cols(probes)
            q = f"SELECT {','.join(cc)} FROM (SELECT i, tdigest(20, v) OVER (ORDER BY i ROWS BETWEEN {lo} AND CURRENT ROW) a FROM (VALUES {v}) v(i,v)) s ORDER BY i"
            r = conn.q(q)
            out.trace({"values": vs, "frame": lo}, steps=len(vs), state=(vs, lo))
            for i, row in enumerate(r):
                fr = vs[:i + 1] if lo[0] == "U" else vs[max(0, i - int(lo[0])):i + 1]
                bad = judge(fr, 20, probes, row)
                if bad:
                    out.violation({"values": vs, "frame": lo, "row": i}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore("window frames", [(vs, lo) for n in range(1, chk.pick(5, 6)) for vs in itertools.product([0.0, 2.0, -7.0, None], repeat=n)
                                  for lo in ("UNBOUNDED PRECEDING", "1 PRECEDING", "2 PRECEDING")], work2)

    def work3(conn, part, out):
        for a, b in part:
            for q in (f"SELECT rollup(s) FROM (SELECT tdigest({a},v) s FROM (VALUES (1.0::float8),(2)) v(v) UNION ALL SELECT tdigest({b},v) FROM (VALUES (1.0::float8),(3)) v(v)) x",
                      f"SELECT mcrun(NULL::tdigest, 'rollup(tdigest)', '[0[1+', array[[(SELECT tdigest({a},1.5)::text)],[(SELECT tdigest({b},2.5)::text)]])",
                      f"SELECT mcrun(NULL::tdigest, '{AGG}', '[0[1+', array[['{a}','1.5'],['{b}','2.5']])"):
                r = conn.try_q(q)
                out.trace(q, state=q)
                if isinstance(r, Exception) != (a != b):
                    out.violation(q, "error" if a != b else "ok", repr(r))
    chk.explore("sizes must match", list(itertools.product((20, 21, 100), repeat=2)), work3)

    # C library: programs over builders, n pushes and merges; the printed digest is read back by the server
    with mclib.Lock("ext"):
        mclib.sh(["cargo", "build", "-p", "tdigest-lib", "--offline"], cwd=mclib.REPO, env=mclib.cargo_env())
        so = os.path.join(mclib.BUILD, f"tdlib.{os.getpid()}.so")
        mclib.sh(["cp", mclib.cargo_env()["CARGO_TARGET_DIR"] + "/debug/libtimescaledb_toolkit_tdigest.so", so])
    try:
        progs = []
        for size in (4, 20):
            for k in (2, 3):
                for ns in itertools.product((0, 1, 3, 5), repeat=k):
                    for t in mclib.merge_trees([f"p{i}" for i in range(k)]):
                        for late in (0, 2):
                            progs.append((size, ns, t, late))

        def work4(conn, part, out):
            import json
            res = ffi(so, part)
            for case, got in zip(part, res):
                size, ns, t, late = case
                vals = ffi_values(case)
                out.trace({"C library": case}, steps=len(t), state=case)
                if got is None:
                    out.violation({"C library": case}, "no crash", "process aborted")
                    continue
                probes = [-5.0, 0.7, 2.0, 30.0]
                if not vals:
                    ok = "count:0" in got and f"max_buckets:{size}" in got
                    if not ok:
                        out.violation({"C library": case}, "empty digest", got)
                    continue
                r = conn.q(f"SELECT {','.join(cols(probes))} FROM (SELECT '{got}'::tdigest a) s")[0]
                bad = judge(vals, size, probes, r, 1.0 if size == 20 and len(vals) < 10 else 2.0)
                if bad or f"max_buckets:{size}," not in got:
                    out.violation({"C library": case}, f"{bad}", got)
        chk.explore("C library", progs, work4, chunk=50)
    finally:
        os.unlink(so)


def ffi_values(case):
    size, ns, t, late = case
    vals = [float((i * 7 + j * 3) % 11) - i for i, n in enumerate(ns) for j in range(n)]
    # late pushes go to the result of the merges
    return vals + [20.0 + j for j in range(late)]


FFI = r"""
import ctypes, sys, json
L = ctypes.CDLL(sys.argv[1])
P = "timescaledb_toolkit_tdigest_"
def f(n, res, *a):
    g = getattr(L, P + n); g.restype = res; g.argtypes = list(a); return g
V = ctypes.c_void_p
new, push, merge = f("builder_with_size", V, ctypes.c_size_t), f("push", None, V, ctypes.c_double), f("merge", None, V, V)
build, fmt, free, bfree = f("build", V, V), f("format_for_postgres", V, V), f("free", None, V), f("builder_free", None, V)
for line in sys.stdin:
    size, ns, t, late = json.loads(line)
    bs = []
    for i, n in enumerate(ns):
        b = new(size)
        for j in range(n): push(b, float((i * 7 + j * 3) % 11) - i)
        bs.append(b)
    st = []
    k = 0
    while k < len(t):
        if t[k] == "p": st.append(bs[int(t[k + 1])]); k += 2
        else:
            o = st.pop(); merge(st[-1], o); k += 1
    for j in range(late): push(st[0], 20.0 + j)
    junk = new(size); push(junk, 1.0); bfree(junk)
    d = build(st[0])
    s = fmt(d)
    print(ctypes.string_at(s).decode(), flush=True)
    ctypes.CDLL(None).free(V(s))
    free(d)
"""


def ffi(so, cases):
    import json
    out = []
    while len(out) < len(cases):
        todo = cases[len(out):]
        p = subprocess.run([sys.executable, "-c", FFI, so], input="\n".join(json.dumps(c) for c in todo), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lines = p.stdout.split("\n")[:-1]
        out += lines
        if len(out) < len(cases):
            out.append(None)
    return out


if __name__ == "__main__":
    main(run_)
