"""C01: counter_agg's accessors describe the reset-adjusted series of its input, for every input."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from metric_check import Kind, single_pass, SEC


def cases(chk):
    T = [-5 * SEC, 0, 2 * SEC, 9500000]
    V = [0.0, 1.0, 2.5, 7.0]
    pts = [(t, v) for t in T for v in V]
    for n in range(0, 5):
        yield from itertools.product(pts, repeat=n)
    # longer, in time order, values over a small alphabet
    for n in range(4, chk.pick(8, 10)):
        tt = [k * k * 500000 - SEC for k in range(n)]
        for vs in itertools.product([0.0, 1.0, 3.0], repeat=n):
            yield tuple(zip(tt, vs))
    # all arrival orders of a fixed series (the aggregate sorts)
    base = [(0, 5.0), (SEC, 3.0), (3 * SEC, 3.0), (4 * SEC, 10.0), (9 * SEC, 0.5)] + ([(11 * SEC, 0.25)] if chk.thorough else [])
    for p in itertools.permutations(base):
        yield p
    # values below zero: every decrease is a reset, whatever the sign
    for n in range(2, chk.pick(6, 7)):
        for vs in itertools.product([-4.0, -1.0, 0.0, 2.0], repeat=n):
            yield tuple((i * i * SEC, v) for i, v in enumerate(vs))
    # NULL timestamps / values are ignored, wherever they are
    pn = [(None, None), (None, 4.0), (SEC, None), (0, 2.0), (2 * SEC, 1.0)]
    for n in range(0, chk.pick(5, 6)):
        yield from itertools.product(pn, repeat=n)
    # many duplicates of one timestamp (first arrival wins), before, between and after
    for vs in itertools.product([1.0, 2.0, 4.0], repeat=4):
        for at in (0, 1, 2):
            yield tuple([(-SEC, 3.0)] * (at > 0) + [(0, v) for v in vs] + [(SEC, 2.0)] * (at < 2))


def big(chk):
    """Batches larger than any small-sort threshold: every timestamp occurs twice or three times with
    different values, in every arrangement of ascending / descending / strided passes."""
    for n in chk.pick((7, 11, 17, 40), (7, 11, 17, 23, 40, 64, 150)):
        passes = [list(range(n)), list(range(n))[::-1]] + [[i * s % n for i in range(n)] for s in (3, 5) if n % s]
        for a, b in itertools.product(passes, repeat=2):
            for va, vb in ((1.0, 2.0), (5.0, 0.5)):
                yield tuple([(i * SEC, va + i) for i in a] + [(i * SEC, vb) for i in b])
                yield tuple([(i * SEC, va) for i in a] + [(i * SEC, vb + i) for i in b] + [(i * SEC, 9.0 * i) for i in a])
                yield tuple(x for i, j in zip(a, b) for x in ((i * SEC, va), (j * SEC, vb), (j * SEC, 3.0)))


def thousands(chk):
    """Groups of thousands of rows in several arrival orders, with duplicates that arrive late."""
    for n in chk.pick((130, 1100, 4200), (130, 260, 520, 1100, 2100, 4200, 8300)):
        for a in (range(n), range(n - 1, -1, -1), [i * 7 % n for i in range(n)], [*range(n // 2, n), *range(n // 2)]):
            if len(set(a)) == n:
                yield tuple((i * SEC, float(i * 37 % 101)) for i in a)
                yield tuple((i * SEC, float(i // 3)) for i in a) + tuple((i * SEC, 7.0) for i in range(0, n, 5))


def huge(chk):
    # timestamps far from the epoch: only what does not depend on the conditioning of the regression
    for base in (631152000 * SEC, -631152000 * SEC * 20, 250000000000 * SEC // 1000):
        for vs in itertools.product([0.0, 2.0, 5.0], repeat=3):
            for gaps in itertools.product([1, 60 * SEC], repeat=2):
                t = [base, base + gaps[0], base + gaps[0] + gaps[1]]
                yield tuple(zip(t, vs))


def run(chk):
    k = Kind("counter")
    single_pass(chk, k, "all sequences", list(cases(chk)))
    single_pass(chk, k, "large batches with duplicates", list(big(chk)))
    single_pass(chk, k, "thousands of rows", list(thousands(chk)), chunk=1)
    k2 = Kind("counter")
    k2.acc = [a for a in k2.acc if a not in ("slope", "intercept", "corr", "zero_time")]
    single_pass(chk, k2, "far timestamps", list(huge(chk)))


if __name__ == "__main__":
    main(run)
