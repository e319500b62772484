"""Reference model of hyperloglog: the set of 64-bit hashes of the distinct values."""
import json, math, os, re

THRESHOLD = [10, 20, 40, 80, 220, 400, 900, 1800, 3100, 6500, 11500, 20000, 50000, 120000, 350000]

# the bias data of the HLL++ paper
TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hll_bias.json")))


class Model:
    def __init__(self, hashes, size):
        self.h = set(hashes)
        p = 0
        while (1 << p) < size:
            p += 1
        self.p = p
        self.idx25 = {h >> 39 for h in self.h}
        m = float(1 << 25)
        self.sparse = int(m * math.log(m / (m - len(self.idx25))))
        regs = [0] * (1 << p)
        for h in self.h:
            w = h & ((1 << (64 - p)) - 1)
            r = (64 - p) - w.bit_length() + 1
            i = h >> (64 - p)
            regs[i] = max(regs[i], r)
        self.regs = regs

    def stderror(self):
        return 1.04 / math.sqrt(1 << self.p)

    def dense(self):
        """(low, high) bounds of the dense estimate; exact where linear counting or the plain raw estimate applies."""
        m = float(1 << self.p)
        zeros = self.regs.count(0)
        if zeros:
            lc = m * math.log(m / zeros)
            if lc <= THRESHOLD[self.p - 4]:
                return int(lc), int(lc)
        a = {16: .673, 32: .697, 64: .709}.get(int(m), .7213 / (1 + 1.079 / m))
        e = a * m * m / sum(2.0 ** -r for r in self.regs)
        if e > 5 * m:
            return int(e), int(e)
        # bias corrected by a mean of the biases of the nearest known raw estimates
        raw, bias = TABLES["raw"][self.p - 4], TABLES["bias"][self.p - 4]
        near = sorted(range(len(raw)), key=lambda i: abs(raw[i] - e))[:8]
        b = [bias[i] for i in near]
        return e - max(b) - 0.002 * m, e - min(b) + 0.002 * m


TXT = re.compile(r"^\(version:1,log:(Sparse|Dense)\((.*)\)\)$")


def judge(m, text, count, arrow, err, colsize):
    """None or (what, expected, got)."""
    mt = TXT.match(text)
    if count != arrow:
        return "arrow form", count, arrow
    if abs(float(err) - m.stderror()) > 1e-12:
        return "stderror", m.stderror(), err
    if f"precision:{m.p}" not in text:
        return "precision", m.p, text
    if int(colsize) > (1 << m.p) * 6 // 8 * 1.3 + 80:
        return "size", "at most that of the registers", colsize
    if mt.group(1) == "Sparse":
        n = int(re.search(r"num_compressed:(\d+)", text).group(1))
        if n != len(m.idx25):
            return "sparse entries", len(m.idx25), n
        if int(count) != m.sparse:
            return "distinct_count (sparse)", m.sparse, count
    else:
        by = [int(x) for x in re.search(r"registers:\[([\d,]*)\]", text).group(1).split(",")]
        bits = "".join(f"{b:08b}" for b in by)
        regs = [int(bits[i * 6:i * 6 + 6], 2) for i in range(1 << m.p)]
        if regs != m.regs:
            i = next(i for i in range(1 << m.p) if regs[i] != m.regs[i])
            return f"register {i}", m.regs[i], regs[i]
        lo, hi = m.dense()
        if not lo - 1 <= int(count) <= hi + 1 if lo != hi else abs(int(count) - lo) > (1 if lo > 1000 else 0):
            return "distinct_count (dense)", (lo, hi), count
    return None


COLS = ["a::text", "distinct_count(a)", "a -> distinct_count()", "a -> stderror()", "pg_column_size(a)"]
HASH = {"bigint": "hashint8extended", "int": "hashint4extended", "float8": "hashfloat8extended", "text": "hashtextextended",
        "timestamptz": "timestamp_hash_extended", "uuid": "uuid_hash_extended", "bytea": "hashvarlenaextended", "numeric": "hash_numeric_extended", "boolean": "hashcharextended",
        "int[]": "hash_array_extended", "interval": "interval_hash_extended"}


def hashes(conn, typ, vals, coll=""):
    """hash of every value text by PostgreSQL's own extended hash function."""
    if typ == "timestamptz" or typ == "boolean" or not vals:
        pass
    arr = "ARRAY[" + ",".join("'" + str(v).replace("'", "''") + "'" for v in vals) + f"]::text[]"
    cast = "v::boolean::int::\"char\"" if typ == "boolean" else f"v::{typ}"
    if typ == "timestamptz":
        cast = "v::timestamptz at time zone 'UTC'"
    if typ == "bytea":
        cast = "v::bytea"
    r = conn.q(f"SELECT {HASH[typ]}({cast} {coll}, 0) FROM unnest({arr}) WITH ORDINALITY u(v, i) ORDER BY i")
    return [int(x[0]) & ((1 << 64) - 1) for x in r]
