"""C02: gauge_agg's accessors describe the raw series of its input, for every input."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main
from metric_check import Kind, single_pass, SEC
import c01


def known_idelta(c, m, b):
    """gauge_agg shares counter_agg's instantaneous-delta code: for a decrease it reports the later
    value itself instead of the difference (pinned by the repository's own tests)."""
    name, exp, got = b
    if m is None or len(m["_raw"]) < 2:
        return None
    lo, hi = (m["_raw"][0], m["_raw"][1]) if name.endswith("left") else (m["_raw"][-2], m["_raw"][-1])
    if name in ("idelta_left", "idelta_right", "irate_left", "irate_right") and hi < lo:
        ts = m["_ts"]
        dt = 1.0 if name.startswith("idelta") else ((ts[1] - ts[0]) if name.endswith("left") else (ts[-1] - ts[-2])) / SEC
        if got is not None and abs(float(got) - float(hi) / dt) <= 1e-9 * max(1, abs(float(hi) / dt)):
            return "gauge-idelta-decrease"
    return None


def run(chk):
    k = Kind("gauge")
    cs = list(c01.cases(chk))
    # gauges go negative as well
    pts = [(t, v) for t in (0, SEC, 4 * SEC) for v in (-3.0, 0.0, 2.0)]
    for n in range(1, chk.pick(4, 5)):
        cs += itertools.product(pts, repeat=n)
    single_pass(chk, k, "all sequences", cs, known_idelta)
    single_pass(chk, k, "large batches with duplicates", list(c01.big(chk)), known_idelta)
    single_pass(chk, k, "thousands of rows", list(c01.thousands(chk)), known_idelta, chunk=1)
    k2 = Kind("gauge")
    k2.acc = [a for a in k2.acc if a not in ("slope", "intercept", "corr", "zero_time")]
    single_pass(chk, k2, "far timestamps", list(c01.huge(chk)), known_idelta)


if __name__ == "__main__":
    main(run)
