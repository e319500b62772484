"""Planted bugs: python3 tools/seed.py new [NAME...] writes /verif/seeded/NAME/ from seeds_data.py, confirms in a
scratch copy of /repo (/tmp/wt) that the demonstration tells the trees apart and that the stable tests pass, and runs
the property's check against the change; the outcome goes to seeded/NAME/result.json (read by nothing but people)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WT = os.environ.get("SEED_WT", "/tmp/wt")
sys.path[:0] = [HERE, HERE + "/seedlib", VERIF + "/mc"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def reset():
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])
    sh(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    r = sh(["git", "-C", WT, "reset", "-q", "--hard", "FETCH_HEAD"])
    assert r.returncode == 0, r.stdout


def stable_tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", WT).replace("/var/lib/postgresql/toolkit-test", "/var/lib/postgresql/toolkit-test-wt")
    t = t.replace(". /opt/vp/env.sh", ". /tmp/seed_env.sh")
    open("/tmp/seed_env.sh", "w").write(open("/opt/vp/env.sh").read().replace("/repo", WT))
    open("/tmp/seed_test.sh", "w").write(t)
    r = sh(["bash", "/tmp/seed_test.sh", "/tmp/seed_out.json"])
    got = set(json.load(open("/tmp/seed_out.json"))["passed"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base["stable"]
    return sorted(set(base) - got)


def main():
    import seeds_data
    seeds = {s["name"]: s for s in seeds_data.SEEDS}
    names = [n for n in sys.argv[2:]] or [n for n in seeds if not os.path.exists(f"{VERIF}/seeded/{n}/result.json")]
    reset()
    for n in names:
        s = seeds[n]
        for f, old, new in s["edits"]:
            c = open(f"{WT}/{f}").read().count(old)
            assert c == 1, (n, f, c, old)
    cl = None
    for n in names:
        s = seeds[n]
        if "files" in s:
            d = f"{VERIF}/seeded/{n}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f, t in s["files"].items():
                open(f"{d}/{f}", "w").write(t)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(["bash", d + "/demo.sh"], cwd=WT)
            print(n, "unchanged tree: demo rc", r.returncode, r.stdout[-600:], flush=True)
            assert r.returncode == 0
            continue
        if not cl:
            import demo, pg
            demo.REPO = WT
            cl = demo.cluster()
        d = f"{VERIF}/seeded/{n}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(f"{HERE}/seedlib/{f}", d)
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(f"{VERIF}/mc/pg.py", d)
        open(d + "/demo.sql", "w").write(s["sql"].strip() + "\n")
        out = demo.run(cl, d + "/demo.sql")
        open(d + "/expected.txt", "w").write("\n".join(out) + "\n")
        print(n, "expected:", *[o[:150] for o in out], sep="\n   ", flush=True)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
    if cl:
        cl.stop()
    if sys.argv[1] == "expect":
        return
    for n in names:
        s = seeds[n]
        d = f"{VERIF}/seeded/{n}"
        reset()
        for f, old, new in s["edits"]:
            t = open(f"{WT}/{f}").read()
            open(f"{WT}/{f}", "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh(["git", "-C", WT, "diff"]).stdout)
        res = {}
        r = sh(["bash", d + "/demo.sh"], cwd=WT)
        res["demo_with_patch"] = r.returncode
        print(n, "demo rc", r.returncode, r.stdout[-300:], flush=True)
        if r.returncode not in (1, 101):
            continue
        chk = f"{VERIF}/checks/{s['prop'].lower()}.py"
        if os.path.exists(chk):
            r = sh(["python3", chk], env=dict(os.environ, MC_REPO=WT), timeout=900)
            res["check_rc"] = r.returncode
            res["check"] = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
            print(n, "check", r.returncode, r.stdout[-200:], flush=True)
        bad = stable_tests()
        res["tests_failed"] = bad
        print(n, "tests failing:", bad, flush=True)
        json.dump(res, open(d + "/result.json", "w"), indent=1)
    reset()


main()
