"""C37: no text, however malformed, takes the server down or makes it hang: it is read as a value that every function can handle, or refused."""
import os, sys, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../mc"))
from mclib import main, lit
import vals, pg

NUMS = ["0", "-1", "1", "2", "7", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "-9223372036854775808", "9223372036854775807", "18446744073709551615", "1e308", "-1e400", "NaN", "inf", "0.5", "1e-320", "\"\"", "None", "()", "[]", "true"]
CHARS = ["", "(", ")", "[", "]", ",", ":", "\"", "'", "\\", "0", "9", "-", ".", "e", "x", " ", "\n", "\u00e9", "\U0001d11e", "/*", "#", "r", "\\u{0}"]
FUNS = r"""
CREATE FUNCTION public.mc_read(txt text, ty text, obs text[], alone boolean) RETURNS text LANGUAGE plpgsql AS $$
DECLARE o text; r text := 'read'; t text;
BEGIN
  BEGIN
    EXECUTE 'SELECT ($1::' || ty || ')::text' INTO t USING txt;
  EXCEPTION WHEN OTHERS THEN RETURN 'refused'; END;
  FOREACH o IN ARRAY obs LOOP
    BEGIN
      EXECUTE 'SELECT (' || replace(o, '{a}', 'a') || ')::text FROM (SELECT $1::' || ty || ' AS a) x' INTO t USING txt;
      r := r || '.';
    EXCEPTION WHEN query_canceled THEN RAISE;
      WHEN OTHERS THEN r := r || 'e'; END;
  END LOOP;
  RETURN r;
END $$;
"""
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+)?(?:e-?\d+)?|[A-Za-z_]\w*|[^\s\w]')


def mutants(text, thorough, chars):
    """every single edit of the text"""
    out = []
    toks = [(m.start(), m.end(), m.group()) for m in TOKEN.finditer(text)]
    for n, (a, b, t) in enumerate(toks):
        rest = text[b:]
        alts = ["", t + t, t + "," + t]
        if re.match(r"-?\d", t):
            alts += NUMS
        elif t[0] == '"':
            alts += ['""', '"bogus"', '"\\u{0}"', "5", '"' + "x" * 5000 + '"', '"\u00e9"', '"infinity"', '"-infinity"', '"294277-01-01 00:00:00+00"', '"4714-01-01 00:00:00+00 BC"', "None"]
        elif t[0].isalpha():
            alts += ["bogus", "None", "Some", "5", t.upper()]
        else:
            alts += ["(", ")", "[", "]", ",", ""]
        for x in dict.fromkeys(alts):
            out.append(text[:a] + x + rest)
        if n + 1 < len(toks):      # two tokens change places
            c, d, u = toks[n + 1]
            out.append(text[:a] + u + text[b:c] + t + text[d:])
        # cut off here
        out.append(text[:a])
    if chars:
        for i in range(len(text)):
            for c in (CHARS if thorough else CHARS[:8]):
                out.append(text[:i] + c + text[i + 1:])
            if thorough:
                for c in CHARS[1:]:
                    out.append(text[:i] + c + text[i:])
    # two numbers at once: lengths and what they count
    nums = [(a, b, t) for a, b, t in toks if re.fullmatch(r"\d+", t)]
    two = ["0", "1", "3", "4294967295", "18446744073709551615"] if thorough else ["0", "3", "4294967295"]
    for i in range(len(nums)):
        for j in range(i + 1, len(nums)):
            if j - i > (12 if thorough else 4):
                break
            for x in two:
                for y in two:
                    (a, b, _), (c, d, _) = nums[i], nums[j]
                    out.append(text[:a] + x + text[b:c] + y + text[d:])
    # elements of arrays: one more, one less, none, many
    for m in re.finditer(r"\[([^\[\]]*)\]", text):
        items = m.group(1)
        for x in ("", items + "," + items if items else "0", items.split(",")[0], items + ",0", ",".join([items.split(",")[0] or "0"] * 300)):
            out.append(text[:m.start()] + "[" + x + "]" + text[m.end():])
    # a summary for the top 10**6 values is a slow one, not a malformed one
    return [x for x in dict.fromkeys(out) if x != text and "\0" not in x and not re.search(r"topn:\d{6}", x)]


def run(chk):
    pg.QUERY_TIMEOUT = 120
    chk.start_pg()
    conn = chk.cl.conn()
    conn.q(vals.SETUP)
    conn.q(FUNS)
    cat, V = vals.catalog(conn), vals.values(False)
    for t, l in vals.constructors(conn).items():
        V[t] = [f"{ns}.{f}({', '.join(a)})" for ns, f, a in l]
    roll = {r[0]: r[1] for r in conn.q("SELECT t.typname, min(pn.nspname || '.rollup') FROM pg_proc p JOIN pg_namespace pn ON pn.oid = p.pronamespace JOIN pg_type t ON t.oid = p.proargtypes[0] WHERE p.prokind = 'a' AND p.proname = 'rollup' AND p.pronargs = 1 GROUP BY 1")}
    cases = []
    for t, es in V.items():
        if t not in cat:
            continue
        n, obs = cat[t]
        texts = set()
        for e in es:
            r = conn.try_q(f"SELECT ({e})::text")
            if not isinstance(r, Exception) and r[0][0] is not None:
                texts.add(r[0][0])
        # one text of every shape (the words in it), the shortest
        shape = {}
        for x in sorted(texts, key=lambda x: (len(x), x)):
            shape.setdefault(re.sub(r"[^A-Za-z]+", " ", re.sub(r'"[^"]*"', '"', x))[:400], x)
        for x in list(shape.values())[:chk.pick(3 if not t.startswith("accessor") else 1, 12)]:
            if len(x) > chk.pick(1200, 4000):
                continue
            ob = list(obs)
            if t in roll:
                good = lit(x)
                ob += [f"(SELECT {roll[t]}(y) FROM (VALUES ({{a}}), ({good}::{n})) z(y))", f"(SELECT {roll[t]}(y) FROM (VALUES ({good}::{n}), ({{a}}), ({{a}})) z(y))"]
            for m in mutants(x, chk.thorough, len(x) < chk.pick(160, 600)):
                cases.append((t, n, m, tuple(ob)))
    conn.close()
    if os.environ.get("MC_COUNT"):
        import collections
        c = collections.Counter(x[0] for x in cases)
        print(len(cases), c.most_common(40))
    chk.explore("single edits and pairs of numbers", cases, read, chunk=400)
    chk.assumptions += ["Every edit of the listed kinds at every position of one text per shape; what a malformed text that is accepted means is not judged, only that nothing crashes, hangs or exhausts 3 GB."]


def read(conn, part, out):
    conn.q("SET search_path = public, toolkit_experimental; SET statement_timeout = '60s'")
    groups = {}
    for t, n, m, obs in part:
        groups.setdefault((t, n, obs), []).append(m)
    for (t, n, obs), ms in groups.items():
        arr = "ARRAY[" + ",".join(lit(o) for o in obs) + "]"
        t0 = time.time()
        r = conn.try_q(f"SELECT mc_read(x, {lit(n)}, {arr}, false) FROM unnest(ARRAY[{','.join(lit(m) for m in ms)}]) WITH ORDINALITY y(x, o) ORDER BY o")
        if os.environ.get('MC_COUNT') and time.time() - t0 > 4:
            print(t, len(ms), len(obs), round(time.time() - t0, 1), ms[0][:100], ms[-1][:100], flush=True)
        if isinstance(r, Exception):
            if len(ms) == 1 or getattr(r, "sqlstate", "") != "57014":
                out.violation({"type": t, "texts": ms[:3]}, "an answer", str(r)[:300])
                continue
            for m in ms:
                r = conn.try_q(f"SELECT mc_read({lit(m)}, {lit(n)}, {arr}, true)")
                if isinstance(r, Exception):
                    out.violation({"type": t, "text": m[:600]}, "an answer", str(r)[:300])
            continue
        for m, (x,) in zip(ms, r):
            out.trace(None, 1 + len(obs) * (x != "refused"), (t, m))


main(run)
