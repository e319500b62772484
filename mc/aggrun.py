"""Batched execution of aggregation schedules through mcrun()."""
import itertools
from pg import PgError
from mclib import arr, lit, merge_trees, compositions, set_partitions, leaf, SYM


class Err:
    def __init__(self, e):
        self.sqlstate, self.msg = e.sqlstate, e.msg

    def __repr__(self):
        return f"ERROR({self.msg})"


def _sql(template, agg, accessors, items, argtypes):
    at = "NULL" if argtypes is None else "ARRAY[" + ",".join(f"'{t}'::regtype" for t in argtypes) + "]::oid[]"
    vals = ",".join(f"({i},{lit(prog)},{arr(rows)})" for i, (prog, rows) in items)
    return (f"SELECT i, {', '.join(accessors)} FROM (SELECT i, mcrun(NULL::{template}, '{agg}', prog, rows, {at}) AS a "
            f"FROM (VALUES {vals}) v(i, prog, rows) OFFSET 0) s ORDER BY i")


def run(conn, template, agg, accessors, items, argtypes=None):
    """items: list of (prog, rows). Returns a list with, for each item, the list of accessor texts
    or an Err. Accessors refer to the aggregate value as a."""
    out = [None] * len(items)

    def go(part):
        try:
            for r in conn.q(_sql(template, agg, accessors, part, argtypes)):
                out[int(r[0])] = r[1:]
        except PgError as e:
            if len(part) == 1:
                out[part[0][0]] = Err(e)
            else:
                m = len(part) // 2
                go(part[:m])
                go(part[m:])

    go(list(enumerate(items)))
    return out


def run_each(conn, template, agg, accessors, items, argtypes=None):
    """Like run, but every accessor is evaluated on its own, so that one failing accessor
    does not hide the others: returns a list of lists of text / Err."""
    res = run(conn, template, agg, accessors, items, argtypes)
    for i, r in enumerate(res):
        if isinstance(r, Err):
            res[i] = []
            for a in accessors:
                x = run(conn, template, agg, [a], [items[i]], argtypes)[0]
                res[i].append(x if isinstance(x, Err) else x[0])
    return res


def schedules(n, partitions="consecutive", serialize=(False, True), perms=True, max_parts=None, null_parts=False):
    """Every way of computing an aggregate of rows 0..n-1 out of partial aggregates:
    partition of the rows x order of the partials x merge tree x transport (direct / serialized).
    With serialize, every partial arrives as the executor delivers it: combined into a fresh
    state after a serialize/deserialize round trip."""
    seen = set()
    parts_iter = compositions(n) if partitions == "consecutive" else set_partitions(range(n))
    for blocks in parts_iter:
        if max_parts and len(blocks) > max_parts:
            continue
        orders = itertools.permutations(blocks) if perms else [blocks]
        for order in orders:
            for ser in serialize:
                if ser:
                    # leader: fresh state, each worker's partial deserialized and combined in
                    p = "[" + "".join(leaf(b) + "s+" for b in order)
                    if p not in seen:
                        seen.add(p)
                        yield p
                    # two-level: a merged partial is itself serialized
                    u = sorted(i for b in order[:-1] for i in b)
                    if len(order) >= 2 and u and (partitions != "consecutive" or u[-1] - u[0] == len(u) - 1):
                        p = "[[" + "".join(leaf(b) + "s+" for b in order[:-1]) + "s+" + leaf(order[-1]) + "s+"
                        if p not in seen:
                            seen.add(p)
                            yield p
                else:
                    for t in merge_trees([leaf(b) for b in order]):
                        if t not in seen:
                            seen.add(t)
                            yield t
    if null_parts:
        yield from ("[" + leaf(range(n)) + "+", leaf(range(n)) + "[+", "[[s+" + leaf(range(n)) + "s+[s+")


def leaves(prog):
    """The row-index blocks of a schedule."""
    out = []
    for ch in prog:
        if ch == "[":
            out.append([])
        elif ch in SYM:
            out[-1].append(SYM.index(ch))
    return [b for b in out if b]
