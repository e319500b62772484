"""Reference model of uddsketch: a multiset of values at a compaction level."""
import math

INF = math.inf


def gamma(a):
    return (1 + a) / (1 - a)


def key0(v, a):
    """Bucket of a value at the initial error: (sign, index); index None for the unbounded bucket."""
    if v == 0:
        return (0, 0)
    s = 1 if v > 0 else -1
    if math.isinf(v):
        return (s, None)
    l = math.log(abs(v)) / math.log(gamma(a))
    assert abs(l - round(l)) > 1e-7, ("value on a bucket boundary", v, a)
    return (s, math.ceil(l))


def compact(k):
    s, i = k
    if s == 0 or i is None:
        return k
    return (s, -((-i) // 2))          # ceil(i / 2)


class Sketch:
    def __init__(self, values, size, error):
        self.values = sorted(values)
        self.n = len(values)
        self.alpha = error
        keys = {v: key0(v, error) for v in values}
        self.level = 0
        while len(set(keys.values())) > size:
            keys = {v: compact(k) for v, k in keys.items()}
            self.alpha = 2 * self.alpha / (1 + self.alpha ** 2)
            self.level += 1
            assert self.level < 64, "size below the irreducible bucket count"
        self.keys = keys
        self.error0 = error

    def quantile(self, p):
        """The exact value the estimate must be close to."""
        return self.values[min(int(self.n * p), self.n - 1)]

    def key(self, v):
        k = key0(v, self.error0)
        for _ in range(self.level):
            k = compact(k)
        return k

    @staticmethod
    def order(k):
        s, i = k
        i = INF if i is None else i
        return (s, s * i)

    def rank_bounds(self, v):
        o = self.order(self.key(v))
        lo = sum(1 for x in self.values if self.order(self.keys[x]) < o)
        hi = sum(1 for x in self.values if self.order(self.keys[x]) <= o)
        return lo / self.n, hi / self.n
