"""Reference model of count_min_sketch."""
import math
M = (1 << 64) - 1
SEED = 0x517cc1b727220a95


def sip24(k0, k1, data):
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
    rot = lambda x, b: (x << b | x >> (64 - b)) & M

    def rnd():
        v[0] = (v[0] + v[1]) & M; v[1] = rot(v[1], 13) ^ v[0]; v[0] = rot(v[0], 32)
        v[2] = (v[2] + v[3]) & M; v[3] = rot(v[3], 16) ^ v[2]
        v[0] = (v[0] + v[3]) & M; v[3] = rot(v[3], 21) ^ v[0]
        v[2] = (v[2] + v[1]) & M; v[1] = rot(v[1], 17) ^ v[2]; v[2] = rot(v[2], 32)
    n = len(data)
    for i in range(0, n - n % 8, 8):
        m = int.from_bytes(data[i:i + 8], "little")
        v[3] ^= m
        rnd(); rnd()
        v[0] ^= m
    m = int.from_bytes(data[n - n % 8:], "little") | (n & 255) << 56
    v[3] ^= m
    rnd(); rnd()
    v[0] ^= m
    v[2] ^= 255
    rnd(); rnd(); rnd(); rnd()
    return v[0] ^ v[1] ^ v[2] ^ v[3]


_c = {}


class Model:
    def __init__(self, eps, delta):
        self.w = math.ceil(math.e / eps)
        self.d = math.ceil(math.log(1 / delta))
        self.c = [[0] * self.w for _ in range(self.d)]
        self.n = 0

    def idx(self, s):
        k = (s, self.w, self.d)
        if k not in _c:
            b = s.encode() + b"\xff"
            _c[k] = [sip24(i + 1, SEED, b) % self.w for i in range(self.d)]
        return _c[k]

    def add(self, s):
        self.n += 1
        for r, i in zip(self.c, self.idx(s)):
            r[i] += 1

    def est(self, s):
        return min(r[i] for r, i in zip(self.c, self.idx(s)))

    def text(self):
        return f"(version:1,width:{self.w},depth:{self.d},counters:[{','.join(str(x) for r in self.c for x in r)}])"
