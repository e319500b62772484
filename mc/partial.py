"""Generic exploration of partial aggregation: every schedule of the combine/serialize machinery and of
rollup over finished partial results, each result judged by an oracle of the row values."""
import itertools
from mclib import set_partitions, leaf
from aggrun import run, Err, schedules


def finalize_progs(n):
    """finalize (and discard the result) after every row, and before and after combining."""
    syms = "0123456789"
    yield "[" + "".join(syms[i] + "f" for i in range(n))
    yield "[" + "".join(syms[i] for i in range(n)) + "fff"
    if n >= 2:
        yield "[" + syms[0] + "f[" + "".join(syms[i] for i in range(1, n)) + "f+f"
        yield "[[" + syms[0] + "s+f[" + "".join(syms[i] for i in range(1, n)) + "s+f"


def large_progs(n, order_sensitive, serialize=(False, True)):
    """Schedules of large groups: single pass, two and three partials (consecutive, and interleaved when
    the order does not matter), transported or not, with a discarded final result on the way."""
    k, l = n // 3, n - n // 7
    yield "[*"
    yield "[{0:%d:1}f{%d:%d:1}" % (k, k, n)
    for x in ("s" if v else "" for v in serialize):
        yield "[[{0:%d:1}%s+[{%d:%d:1}%s+[{%d:%d:1}%s+" % (k, x, k, l, x, l, n, x)
        yield ("[[{0:%d:1}s+[[{%d:%d:1}s+[{%d:%d:1}s+s+" if x else "[{0:%d:1}[{%d:%d:1}[{%d:%d:1}++") % (k, k, l, l, n)
        yield "[[{0:%d:1}%s+f[{%d:%d:1}%s+" % (l, x, l, n, x)
        yield "[[{0:1:1}%s+[{1:%d:1}%s+" % (x, n, x)
        if not order_sensitive:
            yield "[[{0:%d:2}%s+[{1:%d:2}%s+" % (n, x, n, x)
            yield "[[{%d:-1:-3}%s+[{%d:-1:-3}%s+[{%d:-1:-3}%s+" % (n - 1, x, n - 2, x, n - 3, x)
            yield "[[{%d:-1:-1}%s+" % (n - 1, x)


def large_progs_time(n):
    """The same for aggregates that sort their rows by time: every partial holds a time range, in any arrival order."""
    yield from large_progs(n, True)
    k, l = n // 3, n - n // 7
    for x in ("", "s"):
        yield "[[{%d:-1:-1}%s+[{%d:%d:-1}%s+[{%d:%d:-1}%s+" % (k - 1, x, l - 1, k - 1, x, n - 1, l - 1, x)
        yield "[[{%d:%d:-1}%s+[{0:%d:2}{1:%d:2}%s+[{%d:%d:1}%s+" % (n - 1, l - 1, x, k, k, x, k, l, x)
        yield "[[{%d:%d:3}{%d:%d:3}{%d:%d:3}%s+[{0:%d:1}%s+" % (k + 2, n, k, n, k + 1, n, x, k, x)


def large_words(al, n):
    """Long words over an alphabet: cyclic, in runs, skewed."""
    a = len(al)
    yield tuple(al[i % a] for i in range(n))
    yield tuple(al[i * a // n] for i in range(n))
    yield tuple(al[0] if i % 11 else al[(i // 11) % a] for i in range(n))


def large(chk, name, T, AGG, cols, cases, row, judge, argtypes=None, chunk=1):
    """cases: (rows, schedule) with many rows."""
    def work(conn, part, out):
        for c, p in part:
            r = run(conn, T, AGG, cols, [(p, [row(v) for v in c])], argtypes)[0]
            out.trace({"agg": AGG, "rows": f"{len(c)} rows", "first": c[:6], "schedule": p}, steps=len(c), state=(AGG, len(c), c[:12], p))
            bad = judge(c, r)
            if bad:
                out.violation({"agg": AGG, "rows": f"{len(c)} rows", "first": c[:12], "schedule": p}, f"{bad[0]}: {str(bad[1])[:400]}", str(bad[2])[:400])
    chk.explore(name + ": large groups", cases, work, chunk=chunk)


def explore(chk, name, T, AGG, ROLL, cols, alphs, row, judge, maxn, roll=True, order_sensitive=False, roll_max=None, roll_cols=None, roll_judge=None, chunk=500, ctype=None, argtypes=None, n4=2, serialize=(False, True), words=None, large_n=(130, 1100), lwords=large_words):
    """alphs: list of alphabets; judge(vs, r) -> None | (what, expected, got) where r is a row of column
    texts or Err. With order_sensitive only consecutive partitions in their order are used."""
    words = words or (lambda al, n: itertools.product(al, repeat=n))
    cases = []
    for al in alphs:
        for n in range(1, maxn + 1):
            if order_sensitive:
                progs = list(schedules(n, partitions="consecutive", perms=False, null_parts=True, serialize=serialize))
            else:
                progs = list(schedules(n, partitions="set" if n < 4 else "consecutive", null_parts=True, serialize=serialize))
            progs += [p for p in finalize_progs(n) if p not in progs]
            for vs in words(al if n < 4 else al[:n4], n):
                cases += [(vs, p) for p in progs]

    def work(conn, part, out):
        res = run(conn, T, AGG, cols, [(p, [row(v) for v in c]) for c, p in part], argtypes)
        for (c, p), r in zip(part, res):
            out.trace({"agg": AGG, "rows": c, "schedule": p}, steps=len(p), state=(AGG, c, p))
            bad = judge(c, r)
            if bad:
                out.violation({"agg": AGG, "rows": c, "schedule": p}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore(name + ": all schedules", cases, work, chunk=chunk)
    if large_n:
        large(chk, name, T, AGG, cols, [(w, p) for n in large_n for al in alphs for w in lwords(al, n) for p in large_progs(n, order_sensitive, serialize)], row, judge, argtypes)
    if not (roll and ROLL):
        return
    cases = []
    for al in alphs:
        for n in range(1, (roll_max or min(maxn, 3)) + 1):
            parts = set_partitions(range(n))
            if order_sensitive:
                from mclib import compositions
                parts = compositions(n)
            for blocks in parts:
                rps = list(schedules(len(blocks), perms=not order_sensitive, null_parts=True, serialize=serialize))
                rps += [p for p in finalize_progs(len(blocks)) if p not in rps]
                for vs in words(al, n):
                    cases.append((vs, blocks, rps))
    jd = roll_judge or judge
    RT = ctype or T

    def work2(conn, part, out):
        todo = [(ci, b) for ci, (_, blocks, _) in enumerate(part) for b in blocks]
        leafs = run(conn, T, AGG, ["a::text"], [("[*", [row(part[ci][0][i]) for i in b]) for ci, b in todo], argtypes)
        per = {}
        for (ci, b), r in zip(todo, leafs):
            if isinstance(r, Err):
                out.violation({"agg": AGG, "rows": part[ci][0], "part": b}, "no error", repr(r))
                return
            per.setdefault(ci, []).append([r[0]])
        items = [(ci, p) for ci, (_, _, rps) in enumerate(part) for p in rps]
        for (ci, p), r in zip(items, run(conn, RT, ROLL, roll_cols or cols, [(p, per[ci]) for ci, p in items])):
            c, blocks, _ = part[ci]
            out.trace({"agg": AGG, "rows": c, "rollup of": blocks, "schedule": p}, steps=len(p), state=(AGG, "r", c, str(blocks), p))
            bad = jd(c, r)
            if bad:
                out.violation({"agg": AGG, "rows": c, "rollup of": blocks, "schedule": p}, f"{bad[0]}: {bad[1]}", bad[2])
    chk.explore(name + ": rollup", cases, work2, chunk=min(chunk, 60))
