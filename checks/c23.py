"""C23: state_agg / compact_state_agg from partial aggregates, window frames and rollup equal the single pass."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, ts, lit, set_partitions
from aggrun import run, Err, schedules
import partial
from state import Cols, build, Bad, S, te

AL = {"text": ["a", "ab", "b"], "int": [0, -5, 1 << 62]}
TIMES = (0, 3, 10, 12, 21)


def run_(chk):
    chk.start_pg()
    for kind, compact in (("text", 0), ("text", 1), ("int", 0), ("int", 1)):
        at = ["timestamptz", "text" if kind == "text" else "bigint"]
        T = te + "compactstateagg" if compact else "stateagg"
        agg = (te + "compact_state_agg" if compact else "state_agg") + f"(timestamptz,{at[1]})"
        cols = Cols(kind, compact, AL[kind][:2], ((1, 10),), (5,), full=False)

        def jd(vs, r):
            try:
                m = build(vs)
            except Bad:
                return None if isinstance(r, Err) else ("two states at one time", "error", r)
            if isinstance(r, Err):
                return "no error", "", repr(r)
            return cols.null_ok(r) if m is None else cols.judge(m, r)

        def words(al, n):
            for w in itertools.product(al[:3] + [None] if n < 4 else al[:2], repeat=n):
                yield tuple(zip(TIMES, w))
            if n == 3:  # same times
                yield from [((0, al[0]), (0, al[0]), (3, al[1])), ((3, al[0]), (0, al[1]), (3, al[0])), ((0, al[0]), (3, al[1]), (0, al[1]))]
        def lwords(al, n):
            # many changes and many states; in order, backwards and strided arrival
            for sts in ([al[i * i % len(al)] for i in range(n)], [al[i * 3 // n] for i in range(n)]):
                yield tuple((i, x) for i, x in enumerate(sts))
                yield tuple((i, sts[i]) for i in reversed(range(n)))
                yield tuple((i * 7 % n, sts[i * 7 % n]) for i in range(n))
        partial.explore(chk, f"{agg}", T, agg, None, cols.sql, [AL[kind]], lambda v: (ts(v[0] * S), v[1]), jd, chk.pick(4, 5), argtypes=at, words=words, lwords=lwords, large_n=(130, 1003), chunk=200)

        # rollup of every partition of the rows, overlapping ones are refused
        cases = []
        for n in (2, 3, 4):
            for blocks in set_partitions(range(n)):
                rps = list(schedules(len(blocks), partitions="set" if n < 4 else "consecutive", null_parts=True)) + list(partial.finalize_progs(len(blocks)))
                for w in itertools.product(AL[kind] if n < 4 else AL[kind][:2], repeat=n):
                    cases.append((tuple(zip(TIMES, w)), blocks, rps))
        # parts that touch: the later begins when the earlier ends, in the same state
        for w in itertools.product(AL[kind][:2], repeat=4):
            cases.append((((0, w[0]), (3, w[1]), (3, w[1]), (10, w[2])), [[0, 1], [2, 3]], list(schedules(2))))

        def work(conn, part, out):
            todo = sorted({tuple(c[i] for i in b) for c, blocks, _ in part for b in blocks}, key=str)
            leafs = {b: r for b, r in zip(todo, run(conn, T, agg, ["a::text"], [("[*", [(ts(t * S), s) for t, s in b]) for b in todo], at))}
            items, meta = [], []
            for c, blocks, rps in part:
                ls = [leafs[tuple(c[i] for i in b)] for b in blocks]
                rng = sorted((c[b[0]][0], c[b[-1]][0]) for b in blocks)
                over = any(x[1] > y[0] or x[0] == y[0] for x, y in zip(rng, rng[1:]))
                for p in rps:
                    items.append((p, ls))
                    meta.append((c, blocks, p, over))
            for (c, blocks, p, over), r in zip(meta, run(conn, T, ("toolkit_experimental." if compact else "") + f"rollup({T})", cols.sql, items)):
                case = {"agg": agg, "rows": c, "rollup of": blocks, "schedule": p}
                out.trace(case, steps=len(p), state=(agg, c, str(blocks), p))
                bad = (None if isinstance(r, Err) else ("overlapping parts", "error", r)) if over else ("no error", "", repr(r)) if isinstance(r, Err) else cols.judge(build(c), r)
                if bad:
                    out.violation(case, f"{bad[0]}: {bad[1]}", bad[2])
        chk.explore(f"rollup of {T}", cases, work, chunk=40)

        # window frames: the state is finalized once per row and used on
        def work2(conn, part, out):
            for w, lo in part:
                v = ",".join(f"({i},{lit(ts(TIMES[i] * S))}::timestamptz,{'NULL' if s is None else lit(str(s))}::{at[1]})" for i, s in enumerate(w))
                rows = conn.q(f"SELECT {','.join(cols.sql)} FROM (SELECT i, {agg.split('(')[0]}(t, s) OVER (ORDER BY i ROWS BETWEEN {lo} AND CURRENT ROW) a FROM (VALUES {v}) v(i,t,s)) s ORDER BY i")
                for i, r in enumerate(rows):
                    fr = [(TIMES[j], w[j]) for j in range(0 if lo.startswith("U") else max(0, i - int(lo[0])), i + 1)]
                    m = build(fr)
                    out.trace({"rows": w, "frame": lo, "row": i}, state=(agg, w, lo, i))
                    bad = cols.null_ok(r) if m is None else cols.judge(m, r)
                    if bad:
                        out.violation({"agg": agg, "rows": w, "frame": lo, "row": i}, f"{bad[0]}: {bad[1]}", bad[2])
        chk.explore(f"window frames of {agg}", [(w, lo) for n in (2, 3, 4) for w in itertools.product(AL[kind][:2] + [None], repeat=n) for lo in ("UNBOUNDED PRECEDING", "1 PRECEDING")], work2, chunk=20)


if __name__ == "__main__":
    main(run_)
