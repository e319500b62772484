"""C03: counter_agg / gauge_agg give the single-pass result for every way of computing them from partial
aggregates (parallel plans, serialized transport, rollup), and refuse partials that overlap in time."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, compositions, merge_trees, leaf, set_partitions
from metric_check import *
import c02, partial


def overlapping(blocks, pts):
    spans = sorted((min(pts[i][0] for i in b), max(pts[i][0] for i in b)) for b in blocks)
    return any(a[1] >= b[0] for a, b in zip(spans, spans[1:]))


def check_one(k, case, r, out, pts, prog):
    m = metric.model(pts, k.counter)
    bad = [("all", "a summary", repr(r))] if isinstance(r, Err) else differs(k, m, r)
    tagged = [b for b in bad if not k.counter and c02.known_idelta(pts, m, b)]
    if tagged:
        bad = [b for b in bad if b not in tagged]
    if bad:
        out.violation(case, "single-pass result", bad)
    out.trace(case, steps=len(prog), state=(k.name, prog, tuple(pts)))


def run_kind(chk, k):
    acc = k.sql()
    V = [0.0, 1.0, 3.0]
    tt = [-SEC, 0, 1500000, 4 * SEC, 4 * SEC + 1, 9 * SEC]
    cases = []
    for n in range(1, chk.pick(4, 5) + 1):
        progs = list(schedules(n, null_parts=True, perms=(n <= 4)))
        vals = V if n <= 4 else [1.0, 3.0]
        for vs in itertools.product(vals, repeat=n):
            pts = tuple(zip(tt, vs))
            for p in progs:
                cases.append((pts, p))

    def work(conn, part, out):
        res = run(conn, k.type, k.agg, acc, [(p, rows(pts)) for pts, p in part])
        for (pts, p), r in zip(part, res):
            check_one(k, {"agg": k.agg, "points": pts, "schedule": p}, r, out, pts, p)
    chk.explore(k.name + ": consecutive partials, all schedules", cases, work)

    cases = []
    for n in chk.pick((130, 1100), (130, 260, 520, 1100, 2500)):
        for pts in (tuple((i * SEC, float(i * 37 % 101)) for i in range(n)), tuple((i * SEC, float(i // 3)) for i in range(n))):
            cases += [(pts, p) for p in partial.large_progs_time(n)]

    def work_l(conn, part, out):
        for pts, p in part:
            r = run(conn, k.type, k.agg, acc, [(p, rows(pts))])[0]
            check_one(k, {"agg": k.agg, "rows": len(pts), "first": pts[:5], "schedule": p}, r, out, pts, p)
    chk.explore(k.name + ": large partials", cases, work_l, chunk=1)

    # finalizing early and often (window frames, repeated reads) must not disturb the state
    cases = []
    for n in range(1, 5):
        for vs in itertools.product(V, repeat=n):
            pts = tuple(zip(tt, vs))
            for arrival in itertools.permutations(range(n)) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]:
                cases.append((pts, "[" + "".join("0123456"[i] + "f" for i in arrival)))
    chk.explore(k.name + ": repeated finalization", cases, work)

    # rollup of summaries, through all schedules of the rollup aggregate
    cases = []
    for n in range(1, 5):
        for blocks in compositions(n):
            rps = list(schedules(len(blocks), null_parts=True))
            for vs in itertools.product(V if n < 4 else [0.0, 2.0], repeat=n):
                cases.append((tuple(zip(tt, vs)), blocks, rps))

    def work2(conn, part, out):
        todo = [(ci, b) for ci, (pts, blocks, _) in enumerate(part) for b in blocks]
        leafs = run(conn, k.type, k.agg, ["a::text"], [("[*", rows([part[ci][0][i] for i in b])) for ci, b in todo])
        per = {}
        for (ci, b), r in zip(todo, leafs):
            if isinstance(r, Err):
                out.violation({"agg": k.agg, "points": [part[ci][0][i] for i in b]}, "a summary", repr(r))
                return
            per.setdefault(ci, []).append([r[0]])
        items = [(ci, p) for ci, (_, _, rps) in enumerate(part) for p in rps]
        res = run(conn, k.type, k.rollup, acc, [(p, per[ci]) for ci, p in items])
        for (ci, p), r in zip(items, res):
            pts, blocks, _ = part[ci]
            check_one(k, {"agg": k.rollup, "points": pts, "summaries": blocks, "schedule": p}, r, out, pts, p)
    chk.explore(k.name + ": rollup", cases, work2, chunk=60)

    # overlapping partials: an error, never a wrong answer
    cases = []
    for n in range(2, 5):
        for times in [tt[:n], [0, 0] + tt[2:n], ([0, SEC, SEC] + tt[4:])[:n]]:
            for vs in itertools.product([1.0, 2.0], repeat=n):
                pts = tuple(zip(times, vs))
                for blocks in set_partitions(range(n)):
                    if len(blocks) < 2:
                        continue
                    for order in itertools.permutations(blocks) if len(blocks) < 4 else [blocks]:
                        for ser in ("", "s"):
                            cases.append((pts, order, "[" + "".join(leaf(b) + ser + "+" for b in order)))

    def work3(conn, part, out):
        res = run(conn, k.type, k.agg, acc, [(p, rows(pts)) for pts, _, p in part])
        for (pts, blocks, p), r in zip(part, res):
            case = {"agg": k.agg, "points": pts, "schedule": p}
            if overlapping(blocks, pts):
                out.trace(case, steps=len(p), state=("overlap", k.name, p, pts))
                if not isinstance(r, Err):
                    out.violation(case, "ERROR: out of order points", repr(r))
            else:
                check_one(k, case, r, out, pts, p)
    chk.explore(k.name + ": all partitions, overlap rejected", cases, work3)


def run_(chk):
    run_kind(chk, Kind("counter"))
    run_kind(chk, Kind("gauge"))


if __name__ == "__main__":
    main(run_)
