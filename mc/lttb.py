"""Oracle for Largest-Triangle-Three-Buckets: judges an output against the definition of the algorithm
(buckets of nearly equal size between the first and the last point; from every bucket a point whose
triangle with the previously chosen point and the mean of the next bucket is largest)."""
from fractions import Fraction as F

EP = 946684800000000
POINTS = "(SELECT string_agg((extract(epoch from time)*1000000)::int8 || ' ' || value, '|' ORDER BY o) FROM unnest(%s) WITH ORDINALITY y(time, value, o))"


def points(text, off=EP):
    if not text:
        return []
    return [(int(t) - off, float(v)) for t, v in (p.split(" ") for p in text.split("|"))]


def bounds(n, k):
    """k-1 pairs of (lowest, highest) acceptable borders of the k-2 buckets; the k-1-th border ends the data."""
    out = []
    every = (n - 2) / (k - 2)
    for i in range(k - 1):
        e = (i * (n - 2)) // (k - 2) + 1
        f = int(i * every) + 1
        out.append((min(e, f), max(e, f)))
    return out


def judge(data, k, got):
    """data: [(t, v)] sorted by time, got: [(t, v)]; None or a complaint."""
    n = len(data)
    if k >= n or k <= 0:
        return None if got == data else f"all {n} points unchanged"
    if len(got) != k:
        return f"{k} points"
    if got[0] != data[0] or got[-1] != data[-1]:
        return "first and last point kept"
    if k == 2:
        return None
    if k < 2:
        return "an error"
    b = bounds(n, k)
    a = data[0]
    for i in range(k - 2):
        lo, hi = b[i], b[i + 1]
        p = got[i + 1]
        wide = data[lo[0]:hi[1]]
        if p not in wide:
            return f"point {i + 1} of the output from bucket {i}: {wide[:8]}"
        nlo = hi
        nhi = b[i + 2] if i + 2 < len(b) else (n, n)
        ok = False
        for s in set(nlo):
            for e in set(nhi):
                nxt = data[s:max(e, s + 1)]
                mx = sum(t for t, _ in nxt) // len(nxt)
                my = sum(v for _, v in nxt) / len(nxt)

                def area(q):
                    x, y = (a[0] - mx) * (q[1] - a[1]), (a[0] - q[0]) * (my - a[1])
                    return abs(x - y), 1e-11 * (abs(x) + abs(y)) + 2 * abs(q[1] - a[1])
                ap, tp = area(p)
                best = max(data[lo[1]:hi[0]] or [p], key=lambda q: area(q)[0])
                ab, tb = area(best)
                if ap + tp + tb >= ab * (1 - 1e-9):
                    ok = True
        if not ok:
            return f"point {i + 1} of the output is one with the largest triangle of its bucket, e.g. {best}"
        a = p
    return None


def segments(data, gap):
    out = [[data[0]]]
    for p, q in zip(data, data[1:]):
        if q[0] - p[0] > gap:
            out.append([])
        out[-1].append(q)
    return out


def trunc_div(a, b):
    return -(-a // b) if a < 0 else a // b


def judge_gp(data, k, gap, got):
    """gap-preserving: every segment between gaps keeps its endpoints and an LTTB of its share of the points."""
    if not data:
        return None if got == [] else "no points"
    if gap is None:
        gap = (data[-1][0] - data[0][0]) // k
    segs = segments(data, gap)
    P, E = k, sum(min(2, len(s)) for s in segs)
    I = sum(max(0, len(s) - 2) for s in segs)
    rest = list(got)
    for j, s in enumerate(segs):
        last = j == len(segs) - 1
        want = None
        if len(s) == 1:
            counts = {1}
            use = 1
        elif last:
            use = max(P, 2)
            counts = {use}
        else:
            interior = len(s) - 2
            share = F((P - E) * interior, I) if I else F(0)
            counts = {max(0, int(share)) + 2}
            if abs(share - round(share)) < F(1, 10 ** 9):
                counts |= {max(0, round(share) - 1) + 2, max(0, round(share)) + 2}
        # the output's part for this segment
        part = []
        while rest and s[0][0] <= rest[0][0] <= s[-1][0]:
            part.append(rest.pop(0))
        bad = None
        for c in counts:
            w = judge(s, c, part) if len(s) > 1 else (None if part == s else "the point kept")
            if w is None:
                bad = None
                use = c
                break
            bad = w
        if bad:
            return f"segment {j} ({len(s)} points, share {sorted(counts)}): {bad}"
        P -= use
        E -= min(2, len(s))
        I -= max(0, len(s) - 2)
    return f"nothing after the last segment" if rest else None
