"""Shared machinery of the checks: build from /repo's working tree, private cluster, worker pool,
exhaustive exploration, known findings, replay files and evidence."""
import fcntl, hashlib, itertools, json, math, multiprocessing, os, signal, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pg

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NPROC = min(8, os.cpu_count() or 8)


def cargo_env():
    e = dict(os.environ)
    e.update(
        PATH="/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="1.96.0", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=os.environ.get("MC_TARGET", REPO + "/target"), PGRX_HOME="/opt/vp/pgrx-home")
    for k in ("CARGO_PGRX", "CARGO_PGRX_TEST_PGDATA", "CARGO_PGRX_TEST_RUNAS", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, env=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        sys.stderr.write(f"command failed: {cmd}\n" + r.stdout.decode(errors="replace")[-6000:] + "\n")
        sys.exit(2)
    return r.stdout.decode(errors="replace")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_extension():
    """Build the extension from REPO's working tree; return (so, schema_sql, mcsched_so)."""
    with Lock("ext"):
        env = cargo_env()
        ext = REPO + "/extension"
        feats = "pg16 pg_test"
        sh(["cargo", "build", "--lib", "--offline", "--no-default-features", "--features", feats], cwd=ext, env=env)
        out = os.path.join(BUILD, "schema.%d.sql" % os.getpid())
        sh(["cargo", "pgrx", "schema", "pg16", "--skip-build", "--no-default-features", "--features", feats,
            "-o", out], cwd=ext, env=env)
        schema = open(out).read()
        os.unlink(out)
        so = os.path.join(BUILD, "toolkit.%d.so" % os.getpid())
        sh(["cp", env["CARGO_TARGET_DIR"] + "/debug/libtimescaledb_toolkit.so", so])
        sched = os.path.join(BUILD, "mcsched.%d.so" % os.getpid())
        inc = sh(["/usr/lib/postgresql/16/bin/pg_config", "--includedir-server"]).strip()
        sh(["gcc", "-O1", "-g", "-fPIC", "-shared", "-I" + inc, os.path.join(VERIF, "mc/mcsched.c"), "-o", sched])
    return so, schema, sched


def build_crates():
    """Build the crate-level explorer against REPO's crates; return its path."""
    with Lock("crates"):
        env = cargo_env()
        d = os.path.join(BUILD, "crates-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
        os.makedirs(d, exist_ok=True)
        src = os.path.join(VERIF, "crates_mc")
        toml = open(src + "/Cargo.toml").read().replace('"/repo/', f'"{REPO}/').replace('"src/', f'"{src}/src/')
        for n, t in (("Cargo.toml", toml), ("Cargo.lock", open(src + "/Cargo.lock").read())):
            p = os.path.join(d, n)
            if not os.path.exists(p) or open(p).read() != t:
                with open(p, "w") as f:
                    f.write(t)
        env["CARGO_TARGET_DIR"] = d + "/target"
        sh(["cargo", "build", "--release", "--offline"], cwd=d, env=env)
        out = os.path.join(BUILD, "crates_mc.%d" % os.getpid())
        sh(["cp", d + "/target/release/crates_mc", out])
    return out


def cluster():
    so, schema, sched = build_extension()
    try:
        return pg.Cluster(so, schema, sched, open(os.path.join(VERIF, "mc/mcsched.sql")).read())
    finally:
        os.unlink(so)
        os.unlink(sched)


# ---------------------------------------------------------------- literals
def lit(x):
    if x is None:
        return "NULL"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, float):
        return "'" + fl(x) + "'"
    if isinstance(x, int):
        return str(x)
    return "'" + str(x).replace("'", "''") + "'"


def fl(x):
    if isinstance(x, float):
        if math.isnan(x):
            return "NaN"
        if math.isinf(x):
            return "Infinity" if x > 0 else "-Infinity"
    return repr(float(x))


def arr(rows):
    """SQL text[][] literal of rows of text-able values."""
    def el(v):
        if v is None:
            return "NULL"
        if isinstance(v, float):
            v = fl(v)
        elif isinstance(v, bool):
            v = "true" if v else "false"
        s = str(v).replace("\\", "\\\\").replace('"', '\\"').replace("'", "''")
        return '"' + s + '"'
    if not rows:
        return "'{}'::text[]"
    return "'{" + ",".join("{" + ",".join(el(v) for v in r) + "}" for r in rows) + "}'::text[]"


def pf(s):
    return None if s is None else float(s)


def close(a, b, rtol=1e-9, atol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if isinstance(b, float) and math.isnan(b):
        return False
    if a == b:
        return True
    if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


EPOCH_S = "2000-01-01"


def ts(us):
    """timestamptz text of an integer microsecond offset from 2000-01-01 UTC."""
    if us is None:
        return None
    import datetime
    d = datetime.datetime(2000, 1, 1) + datetime.timedelta(microseconds=us)
    return d.strftime("%Y-%m-%d %H:%M:%S.%f").rstrip("0").rstrip(".") + "+00"


# ---------------------------------------------------------------- schedules
def merge_trees(parts):
    """All binary merge trees over the ordered list of leaf programs (keeping their order)."""
    if len(parts) == 1:
        yield parts[0]
        return
    for i in range(1, len(parts)):
        for l in merge_trees(parts[:i]):
            for r in merge_trees(parts[i:]):
                yield l + r + "+"


def compositions(n):
    """All ways of cutting 0..n-1 into consecutive non-empty blocks."""
    if n == 0:
        yield []
        return
    for m in range(1 << (n - 1)):
        blocks, cur = [], [0]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                blocks.append(cur)
                cur = [i]
            else:
                cur.append(i)
        blocks.append(cur)
        yield blocks


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first = items[0]
    for rest in set_partitions(items[1:]):
        yield [[first]] + rest
        for i in range(len(rest)):
            yield rest[:i] + [[first] + rest[i]] + rest[i + 1:]


SYM = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcde"


def leaf(idx):
    return "[" + "".join(SYM[i] for i in idx)


# ---------------------------------------------------------------- check driver
class Violation(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.viol = []
        self.hung = False
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.scopes = []
        self.assumptions = []
        self.known = []
        self.cl = None
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
        self.seen_known = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def start_pg(self):
        if not self.cl:
            self.cl = cluster()
        return self.cl

    # --- exploration -----------------------------------------------------
    def explore(self, name, cases, fn, chunk=500, pgconn=True, nproc=NPROC):
        """Run fn(conn, case_list, out) on every chunk of cases in a pool of worker processes.
        out is an Out collecting violations, states, transitions, traces."""
        if self.hung:   # every further query may wait for its time limit
            return
        cases = cases if isinstance(cases, list) else list(cases)
        if pgconn:
            self.start_pg()
        n = len(cases)
        # spread the work of neighbouring (similar) cases over all workers
        chunk = max(1, min(chunk, (n + nproc * 4 - 1) // (nproc * 4)))
        nch = (n + chunk - 1) // chunk
        ctx = multiprocessing.get_context("fork")
        counter = ctx.Value("i", 0)
        self.crash = ctx.Value("i", 0)  # 1: the server crashed, 2: and the case is known
        results = ctx.SimpleQueue()
        me = os.getpid()
        if self.cl:
            self.cl._owner = me

        def work():
            try:
                conn = self.cl.conn() if pgconn else None
                out = Out(self)
                while True:
                    with counter.get_lock():
                        i = counter.value
                        counter.value += 1
                    if i >= nch or self.crash.value == 2:
                        break
                    part = cases[i * chunk:(i + 1) * chunk]
                    if not part:
                        continue
                    try:
                        fn(conn, part, out)
                    except pg.PgCrash as e:
                        with self.crash.get_lock():
                            self.crash.value = max(1, self.crash.value)
                        conn.close()
                        conn = self._isolate_crash(fn, part, out, e)
                    except pg.PgHang as e:
                        out.violation({"one of": part[:8]}, "an answer", str(e), note="hang")
                        break
                    except (OSError, MemoryError, SystemExit, KeyboardInterrupt):
                        raise
                    except Exception as e:
                        # an SQL error, or output that the oracle can not even read
                        out.violation({"one of": part[:8]}, "a result that can be judged", traceback.format_exc()[-1500:])
                        break
                    if len(out.viol) > 20:
                        break
                results.put(("ok", out.viol, out.states, out.transitions, out.traces, out.samples))
            except BaseException:
                results.put(("err", traceback.format_exc()))
            finally:
                os._exit(0)

        procs = []
        for _ in range(min(nproc, max(1, nch))):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                work()
            procs.append(pid)
        err = None
        for _ in procs:
            r = results.get()
            if r[0] == "err":
                err = r[1]
                continue
            self.viol += r[1]
            self.hung = self.hung or any(v.get("note") == "hang" for v in r[1])
            self.states |= r[2]
            self.transitions += r[3]
            self.traces += r[4]
            if len(self.samples) < 12:
                self.samples += r[5][:2]
        for p in procs:
            os.waitpid(p, 0)
        if err:
            sys.stderr.write(err)
            sys.exit(2)
        if self.crash.value == 1:
            self.violation({"scope": name}, "no crash", "server process crashed; no single case repeats it", note="backend crash")
        self.hung = self.hung or self.crash.value > 0
        self.scopes.append({"scope": name, "cases": n})

    def _reconnect(self):
        for attempt in range(300):
            try:
                return self.cl.conn()
            except Exception:
                time.sleep(0.1)
        raise pg.PgCrash("the server does not come back")

    def _isolate_crash(self, fn, part, out, e):
        """The backend crashed on a chunk: find the first case that crashes it by itself."""
        conn, stop = None, time.time() + 120
        for case in part:
            sub = None
            for attempt in range(3):  # a crash in another worker takes this backend down, too
                if self.crash.value == 2 or time.time() > stop:
                    return conn or self._reconnect()
                try:
                    conn = conn or self._reconnect()
                    sub = Out(self)
                    fn(conn, [case], sub)
                    break
                except pg.PgCrash:
                    sub = None
                    if conn:
                        conn.close()
                    conn = None
                    time.sleep(1.0)
            else:
                out.violation(case, "no crash", "server process crashed", note="backend crash")
                self.crash.value = 2
                return None
            out.merge(sub)
        return conn or self._reconnect()

    def explore_crate(self, area):
        """Run one area of the crate-level explorer (crates_mc) and take over what it reports."""
        exe = build_crates()
        try:
            r = subprocess.run([exe, area] + (["thorough"] if self.thorough else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3000 if self.thorough else 800)
        except subprocess.TimeoutExpired:
            self.violation({"area": area}, "an answer", "no answer in time", note="hang")
            return
        finally:
            os.unlink(exe)
        done = False
        for l in r.stdout.splitlines():
            j = json.loads(l)
            if "violation" in j:
                self.viol.append(j["violation"])
            elif "scope" in j:
                self.scopes.append(j)
            else:
                done = True
                self.states |= set(range(j["states"]))
                self.transitions += j["transitions"]
                self.traces += j["traces"]
                self.samples += j["samples"]
        if not done:
            self.violation({"area": area}, "the exploration ends", f"exit {r.returncode}: {r.stderr[-500:]}", note="crash")

    # --- reporting -------------------------------------------------------
    def violation(self, case, expected, got, **kw):
        self.viol.append(dict(case=jsonable(case), expected=jsonable(expected), got=jsonable(got), **kw))

    def finish(self):
        if self.cl:
            self.cl.stop()
        new = []
        for v in self.viol:
            k = self._known(v)
            if k:
                self.seen_known.setdefault(k["id"], k)
            else:
                new.append(v)
        for k in self.known:
            if k.get("status") == "fixed":
                continue
            if k["id"] in self.seen_known:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": len(self.states), "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12] or ["none"], "exhaustive": True, "scopes": self.scopes,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rp = os.path.join(VERIF, "evidence", f"replay-{self.pid}.json")
            new.sort(key=lambda v: len(json.dumps(v, default=str)))
            with open(rp, "w") as f:
                json.dump(new[:20], f, indent=1, default=str)
            for v in new[:5]:
                print("  " + json.dumps(v, default=str)[:700])
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.exit(1)
        print(f"OK property={self.pid} states={len(self.states)} transitions={self.transitions} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        sys.exit(0)

    def _known(self, v):
        for k in self.known:
            if k.get("status") == "fixed":
                continue
            if k.get("tag") is not None and v.get("tag") == k["tag"]:
                return k
        return None


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


class Out:
    def __init__(self, check):
        self.check = check
        self.viol = []
        self.tags = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []

    def violation(self, case, expected, got, **kw):
        t = kw.get("tag")
        if t is not None:
            if t in self.tags:
                return
            self.tags.add(t)
        self.viol.append(dict(case=jsonable(case), expected=jsonable(expected), got=jsonable(got), **kw))

    def state(self, s):
        self.states.add(hash64(s))

    def trace(self, case=None, steps=1, state=None):
        self.traces += 1
        self.transitions += steps
        if state is not None:
            self.states.add(hash64(state))
        if case is not None and len(self.samples) < 2:
            self.samples.append(jsonable(case))

    def merge(self, o):
        self.viol += o.viol
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces


def hash64(s):
    return int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=8).digest(), "big")


def main(fn):
    pid = os.path.basename(sys.argv[0]).split(".")[0].upper()
    c = Check(pid)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        fn(c)
    except SystemExit:
        raise
    except (pg.PgCrash, pg.PgHang, pg.PgError) as e:
        # a statement of the check's own preparation, valid on a tree where the property holds
        traceback.print_exc()
        c.violation({"phase": "preparation", "where": traceback.format_exc()[-1500:]}, "an answer", f"{type(e).__name__}: {e}", note="preparation")
    except BaseException:
        traceback.print_exc()
        if c.cl:
            c.cl.stop()
        sys.exit(2)
    c.finish()
