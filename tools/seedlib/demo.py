import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import pg

REPO = os.getcwd()


def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="1.96.0",
             RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=REPO + "/target", PGRX_HOME="/opt/vp/pgrx-home")
    for k in ("CARGO_PGRX", "CARGO_PGRX_TEST_PGDATA", "CARGO_PGRX_TEST_RUNAS", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd):
    r = subprocess.run(cmd, cwd=REPO + "/extension", env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        sys.exit(3)


def cluster():
    feats = ["--no-default-features", "--features", "pg16 pg_test"]
    sh(["cargo", "build", "--lib", "--offline"] + feats)
    with tempfile.TemporaryDirectory() as d:
        sh(["cargo", "pgrx", "schema", "pg16", "--skip-build"] + feats + ["-o", d + "/schema.sql"])
        return pg.Cluster(REPO + "/target/debug/libtimescaledb_toolkit.so", open(d + "/schema.sql").read())


def run(cl, path):
    c = cl.conn()
    c.q("SET search_path = public, toolkit_experimental")
    out = []
    for st in open(path).read().split(";;"):
        st = st.strip()
        if not st:
            continue
        try:
            r = c.try_q(st)
            out.append("error" if isinstance(r, Exception) else repr(r))
        except pg.PgCrash:
            out.append("crash")
            c = cl.conn()
            c.q("SET search_path = public, toolkit_experimental")
    return out


if __name__ == "__main__":
    cl = cluster()
    got = run(cl, HERE + "/demo.sql")
    cl.stop()
    want = open(HERE + "/expected.txt").read().splitlines()
    bad = 0
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            bad = 1
            print(f"statement {i + 1}: expected {w}\n  got {g}")
    sys.exit(1 if bad or len(got) != len(want) else 0)
