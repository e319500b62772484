"""Reference model of candlesticks. A bar is (ts, o, h, l, c, vol | None); a tick is a bar with four equal prices."""
import itertools, math
from mclib import close, pf, ts

S = 1000000
NUM = ["open", "high", "low", "close"]
TIM = ["open_time", "high_time", "low_time", "close_time"]
US = "(extract(epoch from %s - '2000-01-01'::timestamptz)*1000000)::bigint"
NAMES = NUM + TIM + ["volume", "vwap"]
COLS = ["open(a)", "high(a)", "low(a)", "close(a)"] + [US % f"{t}(a)" for t in TIM] + ["volume(a)", "vwap(a)"]
ARROWS = [f"(a -> {n}())" for n in NUM] + [US % f"(a -> {t}())" for t in TIM]
# columns of checks: plain accessors, arrow accessors equal to them, text form reads back to the same
ALL = COLS + ["(" + " AND ".join(f"({x}) IS NOT DISTINCT FROM ({y})" for x, y in zip(COLS, ARROWS)) + ")",
              "(a::text::candlestick::text = a::text)"]


def bars(rows):
    """tick rows (ts, price, vol) -> bars"""
    return [(t, p, p, p, p, v) for t, p, v in rows if t is not None and p is not None]


def expected(bs):
    """For every accessor, the list of acceptable values in order of arrival: the first one is the answer when the bars
    are seen in this order, all of them are when the order is not fixed."""
    if not bs:
        return None
    t0, t1 = min(b[0] for b in bs), max(b[0] for b in bs)
    hi, lo = max(b[2] for b in bs), min(b[3] for b in bs)
    o = [b[1] for b in bs if b[0] == t0]
    c = [b[4] for b in bs if b[0] == t1]
    ht = [b[0] for b in bs if b[2] == hi]
    lt = [b[0] for b in bs if b[3] == lo]
    if any(b[5] is None for b in bs):
        vol = vw = None
    else:
        vol = sum(b[5] for b in bs)
        s = sum(b[5] * ((b[2] + b[3] + b[4]) / 3) for b in bs)
        vw = s / vol if vol > 0 and math.isfinite(s) else None
    return {"open": o, "high": [hi], "low": [lo], "close": c, "open_time": [t0], "high_time": ht, "low_time": lt, "close_time": [t1], "volume": [vol], "vwap": [vw]}


def judge(bs, r, ordered):
    e = expected(bs)
    if e is None:
        return None if all(x is None for x in r[:10]) else ("no rows", "NULL", r)
    for n, g in zip(NAMES, r):
        w = e[n][:1] if ordered else e[n]
        if n.endswith("_time"):
            ok = g is not None and int(g) in w
        elif n in ("volume", "vwap"):
            ok = close(pf(g), w[0], 1e-9, 1e-9)
        else:
            ok = g is not None and float(g) in w
        if not ok:
            return n, w, g
    if r[10] != "t" or r[11] != "t":
        return "arrow accessors and text form agree", "t", r[10:12]
    return None
