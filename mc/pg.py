"""Private PostgreSQL 16 cluster running the extension built from /repo's working tree,
and a minimal v3 wire-protocol client (no third-party modules)."""
import os, pwd, shutil, socket, struct, subprocess, sys, tempfile, time, atexit, signal, resource

PGBIN = "/usr/lib/postgresql/16/bin"


class PgError(Exception):
    def __init__(self, fields):
        self.sqlstate = fields.get("C", "")
        self.msg = fields.get("M", "")
        self.fields = fields
        super().__init__(f"{self.sqlstate}: {self.msg}")


class PgCrash(Exception):
    """The backend went away: a crash of the code under test."""


class PgHang(Exception):
    """No answer to a query within QUERY_TIMEOUT: the code under test does not terminate."""


QUERY_TIMEOUT = 240


class Conn:
    def __init__(self, sockdir, user="postgres", db="postgres"):
        self.sockdir, self.user, self.db = sockdir, user, db
        self.sock = None
        self.buf = b""
        self.notices = []
        self.connect()

    def connect(self):
        deadline = time.time() + 60
        while True:
            try:
                s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                s.connect(os.path.join(self.sockdir, ".s.PGSQL.5432"))
                s.settimeout(QUERY_TIMEOUT)
                self.sock = s
                self.buf = b""
                body = struct.pack("!I", 196608)
                for k, v in (("user", self.user), ("database", self.db), ("client_encoding", "UTF8")):
                    body += k.encode() + b"\0" + v.encode() + b"\0"
                body += b"\0"
                s.sendall(struct.pack("!I", len(body) + 4) + body)
                self._until_ready()
                return
            except (OSError, PgCrash, PgHang, PgError):
                s.close()
                if time.time() > deadline:
                    raise
                time.sleep(0.05)

    def _recvn(self, n):
        b = self.buf
        if len(b) >= n:
            self.buf = b[n:]
            return b[:n]
        parts = [b]
        have = len(b)
        while have < n:
            try:
                # the time limit is for the whole query, not for every piece of its answer
                self.sock.settimeout(max(0.01, self.deadline - time.time()))
                d = self.sock.recv(1 << 18)
            except TimeoutError:
                raise PgHang(f"no answer within {QUERY_TIMEOUT} s")
            except OSError as e:
                raise PgCrash(str(e))
            if not d:
                raise PgCrash("connection closed by server")
            parts.append(d)
            have += len(d)
        b = b"".join(parts)
        self.buf = b[n:]
        return b[:n]

    def _msg(self):
        h = self._recvn(5)
        n = struct.unpack("!I", h[1:])[0]
        return h[:1], self._recvn(n - 4)

    @staticmethod
    def _fields(b):
        out = {}
        for part in b.split(b"\0"):
            if part:
                out[chr(part[0])] = part[1:].decode("utf8", "replace")
        return out

    def _until_ready(self):
        self.deadline = time.time() + QUERY_TIMEOUT
        err = None
        rows = []
        sets = []
        while True:
            t, b = self._msg()
            if t == b"Z":
                if err:
                    raise PgError(err)
                return rows, sets
            elif t == b"D":
                n = struct.unpack_from("!H", b)[0]
                p = 2
                row = []
                for _ in range(n):
                    l = struct.unpack_from("!i", b, p)[0]
                    p += 4
                    if l < 0:
                        row.append(None)
                    else:
                        row.append(b[p:p + l].decode("utf8", "replace"))
                        p += l
                rows.append(row)
            elif t == b"C":
                sets.append(rows)
                last = rows
                rows = []
            elif t == b"E":
                err = self._fields(b)
                if err.get("C") in ("57P01", "57P02", "57P03"):
                    raise PgCrash(err.get("M", ""))
            elif t == b"N":
                self.notices.append(self._fields(b).get("M", ""))
            # R, S, K, T, I: ignored

    def q(self, sql):
        """Run sql, return the rows of the last statement (text or None)."""
        b = sql.encode() + b"\0"
        try:
            self.sock.sendall(b"Q" + struct.pack("!I", len(b) + 4) + b)
        except OSError as e:
            raise PgCrash(str(e))
        _, sets = self._until_ready()
        return sets[-1] if sets else []

    def try_q(self, sql):
        """Rows, or the PgError."""
        try:
            return self.q(sql)
        except PgError as e:
            return e

    def multi(self, sql):
        b = sql.encode() + b"\0"
        try:
            self.sock.sendall(b"Q" + struct.pack("!I", len(b) + 4) + b)
        except OSError as e:
            raise PgCrash(str(e))
        _, sets = self._until_ready()
        return sets

    def one(self, sql):
        r = self.q(sql)
        return r[0][0] if r else None

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass


class Cluster:
    """initdb + postgres under an unprivileged user, all in one scratch directory."""

    def __init__(self, so_path, schema_sql, mcsched_so=None, sched_sql=None):
        self.dir = tempfile.mkdtemp(prefix="mcpg.", dir="/tmp")
        self.proc = None
        self.conns = []
        atexit.register(self.stop)
        pw = pwd.getpwnam("postgres")
        self.uid, self.gid = pw.pw_uid, pw.pw_gid
        os.chmod(self.dir, 0o755)
        lib = os.path.join(self.dir, "lib")
        os.mkdir(lib)
        self.so = os.path.join(lib, "toolkit.so")
        shutil.copyfile(so_path, self.so)
        os.chmod(self.so, 0o755)
        if mcsched_so:
            self.sched = os.path.join(lib, "mcsched.so")
            shutil.copyfile(mcsched_so, self.sched)
            os.chmod(self.sched, 0o755)
        self.data = os.path.join(self.dir, "data")
        self.sockdir = os.path.join(self.dir, "sock")
        for d in (self.data, self.sockdir):
            os.mkdir(d)
            os.chown(d, self.uid, self.gid)
            os.chmod(d, 0o700 if d == self.data else 0o755)
        self._run([PGBIN + "/initdb", "-D", self.data, "-A", "trust", "--no-sync", "-U", "postgres",
                   "--locale=C.UTF-8", "-E", "UTF8"])
        with open(os.path.join(self.data, "postgresql.conf"), "a") as f:
            f.write("""
listen_addresses = ''
unix_socket_directories = '%s'
fsync = off
synchronous_commit = off
full_page_writes = off
autovacuum = off
max_connections = 60
shared_buffers = 64MB
jit = off
timezone = 'UTC'
log_min_messages = fatal
restart_after_crash = on
max_wal_size = 4GB
bgwriter_delay = 10s
wal_level = minimal
max_wal_senders = 0
max_parallel_workers = 8
max_worker_processes = 16
extra_float_digits = 1
""" % self.sockdir)
        log = open(os.path.join(self.dir, "log"), "wb")
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"}
        self.proc = subprocess.Popen([PGBIN + "/postgres", "-D", self.data], preexec_fn=self._drop,
                                     stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd="/")
        self.schema = sql = schema_sql.replace("MODULE_PATHNAME", self.so)
        c = self.conn()
        try:
            c.q("SET check_function_bodies = off;\n" + sql)
        except PgError as e:
            pos = int(e.fields.get("P", "1"))
            sys.stderr.write(f"schema load failed: {e}\n{sql[max(0, pos - 400):pos + 200]}\n")
            raise
        if sched_sql:
            c.q(sched_sql.replace("MCSCHED_PATHNAME", self.sched))

    def _drop(self):
        os.setsid()
        os.setgroups([])
        os.setgid(self.gid)
        os.setuid(self.uid)
        # a query that allocates without end is to fail, not to take the machine down
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    def _run(self, cmd):
        r = subprocess.run(cmd, preexec_fn=self._drop, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/",
                           env={"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"})
        if r.returncode:
            raise RuntimeError(f"{cmd}: {r.stdout.decode(errors='replace')}")

    def conn(self, db="postgres"):
        c = Conn(self.sockdir, db=db)
        self.conns.append(c)
        return c

    def stop(self):
        if os.getpid() != getattr(self, "_owner", os.getpid()):
            return
        if self.proc and self.proc.poll() is None:
            self.proc.send_signal(signal.SIGINT)
            try:
                self.proc.wait(5)
            except subprocess.TimeoutExpired:
                self.proc.send_signal(signal.SIGQUIT)
                try:
                    self.proc.wait(15)
                except subprocess.TimeoutExpired:
                    self.proc.kill()
        self.proc = None
        if self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None
