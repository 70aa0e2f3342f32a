"""
Confirms planted bugs: python tools/plant.py ID [ID...] [--no-tests]
For each /verif/seeded/ID: demo passes on the clean tree; with the patch the
tree builds, the stable tests pass, the demo fails; then runs this property's
check (or those in meta "also") and reports. Leaves /repo as it was.
"""
import json, pathlib, subprocess, sys, tempfile, shutil, os
V = pathlib.Path("/verif")
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def demo(b):
    d = tempfile.mkdtemp(prefix="demo")
    for f in (V/"seeded"/b).iterdir():
        if f.suffix not in (".diff", ".patch") and f.name != "meta.json":
            shutil.copy(f, d)
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    try:
        r = sh(["bash", f"{d}/demo.sh"], cwd="/repo", env=env, timeout=300)
        return r.returncode, r.stdout[-400:]
    finally:
        shutil.rmtree(d)
def build():
    r = sh(["bash", "/opt/vp/build.sh"])
    return r.returncode == 0, r.stdout[-1500:]
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list))
    assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "repo dirty"
    print("clean build", build()[0])
    clean = {b: demo(b) for b in ids}
    for b in ids:
        meta = json.loads((V/"seeded"/b/"meta.json").read_text())
        line = [b, meta["property"], f"clean-demo={clean[b][0]}"]
        if clean[b][0]: print(clean[b][1])
        r = sh(["git", "-C", "/repo", "apply", str(V/"seeded"/b/"patch.diff")])
        if r.returncode:
            print(b, "does not apply", r.stdout); continue
        try:
            ok, out = build()
            line.append(f"builds={ok}")
            if not ok: print(out)
            else:
                if "--no-tests" not in sys.argv:
                    sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
                    res = json.load(open("/tmp/plant.json"))
                    lost = sorted(set(stable) - set(res["passed"]))
                    line.append(f"tests-lost={len(lost)} {lost[:3]}")
                rc, out = demo(b)
                line.append(f"bug-demo={rc}")
                if not rc: print(out)
                if "--no-check" not in sys.argv:
                    for p in [meta["property"], *(a[7:] for a in sys.argv if a.startswith("--also="))]:
                        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                        r = sh(["/opt/venv/bin/python", "run.py", "check", p], cwd=V, env=env)
                        tail = r.stdout.strip().splitlines()[-2:]
                        line.append(f"{p}: rc={r.returncode} {tail}")
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        print(*line, sep="\n   ", flush=True)
    print("clean build", build()[0])
main()
