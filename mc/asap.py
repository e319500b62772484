"""Model of ASAP smoothing (Rong & Bailis, after the published reference implementation): pre-aggregation, autocorrelation peaks,
pruned search over the peaks, binary search. Comparisons that rounding could decide either way are explored both ways, so that the
model yields the set of windows that the algorithm may choose."""
import math

EPS = 1e-9


def rnd(x):
    return math.floor(x + 0.5)


class TooMany(Exception):
    pass


def sma(d, w, slide=1):
    out = []
    for i in range(0, len(d) - w + 1, slide):
        out.append(math.fsum(d[i:i + w]) / w)
    return out


def preaggregate(d, res):
    pre = len(d) // res if len(d) > 2 * res else 1
    return (sma(d, pre, pre) if pre > 1 else list(d)), pre


class Search:
    def __init__(self, d, scale):
        self.d, self.n = d, len(d)
        self.m = {}
        self.scale = scale or 1.0

    def metrics(self, w):
        """(kurtosis or None when rounding decides it, roughness)"""
        if w not in self.m:
            s = sma(self.d, w)
            n = len(s)
            mean = math.fsum(s) / n
            dv = [x - mean for x in s]
            var = math.fsum(x * x for x in dv)
            if n == 0 or max(map(abs, dv)) <= 1e-7 * self.scale:
                k = None if any(dv) or w > 1 or any(x != int(x) for x in self.d) else math.nan
            else:
                k = n * math.fsum(x ** 4 for x in dv) / var ** 2
            df = [b - a for a, b in zip(s, s[1:])]
            if df:
                mm = math.fsum(df) / len(df)
                r = math.sqrt(math.fsum((x - mm) ** 2 for x in df) / len(df))
            else:
                r = math.nan
            self.m[w] = k, r
        return self.m[w]

    def acf(self):
        n = self.n
        lag = rnd(n / 10)
        L = 2 ** (n.bit_length())
        mean = math.fsum(self.d) / n
        x = [v - mean for v in self.d] + [0.0] * (L - n)
        if max(map(abs, x)) <= 1e-7 * self.scale:
            return [math.nan] * lag if not any(x) else None
        r = [math.fsum(x[i] * x[(i + k) % L] for i in range(n)) for k in range(max(lag, 1))]
        return [a / r[0] for a in r][:lag]

    def lt(self, a, b, scale=None):
        """a < b, explored both ways when too close to call"""
        if a is None or b is None:
            return self.choose()
        if math.isnan(a) or math.isnan(b):
            return False
        if abs(a - b) <= EPS * (scale if scale is not None else max(abs(a), abs(b))):
            return self.choose()
        return a < b

    def choose(self):
        if self.pos == len(self.path):
            self.path.append(False)
        self.pos += 1
        return self.path[self.pos - 1]

    def windows(self, limit=256):
        """All windows the algorithm may choose; None when rounding leaves too much open."""
        self.path, res = [], set()
        self.c = self.acf()
        if self.c is None:
            return None
        for _ in range(limit):
            self.pos = 0
            res.add(self.run())
            while self.path and self.path[-1]:
                self.path.pop()
            if not self.path:
                return res
            self.path[-1] = True
        return None

    def peaks(self):
        c, out, mx = self.c, [], 0.0
        if len(c) > 1:
            pos, m = self.lt(c[0], c[1], 1), 1
            for i in range(2, len(c)):
                if not pos and self.lt(c[i - 1], c[i], 1):
                    m, pos = i, True
                elif pos and self.lt(c[m], c[i], 1):
                    m = i
                elif pos and m > 1 and self.lt(c[i], c[i - 1], 1) and self.lt(0.2, c[m], 1):
                    out.append(m)
                    mx = max(mx, c[m])
                    pos = False
        if len(out) <= 1:
            out += range(2, len(c))
        return out, mx

    def feasible(self, w):
        k, k0 = self.metrics(w)[0], self.metrics(1)[0]
        if k is not None and k0 is not None and (math.isnan(k) or math.isnan(k0)):
            return False
        return not self.lt(k, k0)

    def run(self):
        c = self.c
        pk, mx = self.peaks()
        obj, best, lb, lf, tail = self.metrics(1)[1], 1, 1, -1, self.n // 10
        osc = self.metrics(1)[1]
        for i in range(len(pk) - 1, -1, -1):
            w = pk[i]
            if w < lb or w == 1:
                break
            if self.lt(math.sqrt(max(0, 1 - c[best])) * w, math.sqrt(max(0, 1 - c[w])) * best, max(w, best)):
                continue
            if self.feasible(w):
                r = self.metrics(w)[1]
                if self.lt(r, obj, osc):
                    obj, best = r, w
                if abs(c[w] - 1) > EPS:
                    q = (mx - 1) / (c[w] - 1)
                    t = w * math.sqrt(max(q, 0)) if q == q else math.nan
                    near = abs(t - rnd(t) + 0.5) if t == t else 1
                    if t > lb:
                        lb = rnd(t)
                        if near < 1e-6 and self.choose():
                            lb = rnd(t - 1e-5)
                elif abs(mx - 1) <= EPS:
                    raise TooMany
                if lf < 0:
                    lf = i
        if lf > 0:
            if lf < len(pk) - 2:
                tail = pk[lf + 1]
            lb = max(lb, pk[lf] + 1)
        h, t = lb, tail
        while h <= t:
            w = (h + t + 1) // 2
            if w > self.n:
                break
            if self.feasible(w):
                r = self.metrics(w)[1]
                if self.lt(r, obj, osc):
                    best, obj = w, r
                h = w + 1
            else:
                t = w - 1
        return best


def allowed(d, res):
    """(pre-aggregated series, pre-aggregation window, set of allowed smoothing windows)"""
    a, pre = preaggregate(d, res)
    if len(a) <= 1:
        return a, pre, {1}
    s = Search(a, max(map(abs, d)))
    try:
        ws = s.windows()
    except TooMany:
        ws = None
    open_ = ws is None
    if open_:
        ws = set(range(1, len(a) + 1))
    return a, pre, ws, open_, s
