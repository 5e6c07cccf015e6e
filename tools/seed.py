"""Helper to plant bugs: python3 tools/seed.py defs.py [id ...]
defs.py holds SEEDS = [dict(id, property, file, edits=[(old,new),...], needs, breaks, demo)]. For each: make a scratch copy of /repo,
apply, run demo on /repo (must pass) and on the copy (must fail), run the stable tests on the copy; write seeded/<id> when confirmed."""
import sys, os, json, subprocess, pathlib, shutil, runpy
V = pathlib.Path(__file__).resolve().parent.parent
defs = runpy.run_path(sys.argv[1])["SEEDS"]
ids = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json"))
SH = '#!/bin/bash\n. /opt/vp/env.sh 2>/dev/null\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="${SEED_SRC:-}"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
for s in defs:
    if ids and s["id"] not in ids:
        continue
    d = V / "seeded" / s["id"]
    if d.exists() and not ids:
        continue
    cp = pathlib.Path("/tmp/w/sd") / s["id"]
    shutil.rmtree(cp, ignore_errors=True)
    shutil.copytree("/repo", cp, symlinks=True)
    for old, new in s["edits"]:
        f = cp / (s.get("file") if not isinstance(old, tuple) else old[0])
        o = old if not isinstance(old, tuple) else old[1]
        t = f.read_text()
        assert t.count(o) == s.get("count", 1), (s["id"], t.count(o), o)
        f.write_text(t.replace(o, new))
    tmp = pathlib.Path("/tmp/w/sd") / (s["id"] + "_demo")
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir()
    (tmp / "demo.py").write_text(s["demo"])
    (tmp / "demo.sh").write_text(SH)
    diff = subprocess.run(["git", "-C", str(cp), "diff"], capture_output=True, text=True).stdout
    ok0 = subprocess.run(["bash", str(tmp / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    env = dict(os.environ, SEED_SRC=str(cp / "src"))
    ok1 = subprocess.run(["bash", str(tmp / "demo.sh")], cwd=str(cp), capture_output=True, text=True, env=env)
    print(s["id"], "demo clean", ok0.returncode, "patched", ok1.returncode, (ok0.stdout + ok0.stderr)[-300:], "|", (ok1.stdout + ok1.stderr)[-200:], flush=True)
    good = ok0.returncode == 0 and ok1.returncode != 0
    if good:
        e = dict(os.environ, PYTHONPATH=f"{cp}/src:/opt/vp/pytest_plugin", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        x = f"/tmp/w/sd/{s['id']}.xml"
        subprocess.run(["nice", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_slice", "-n", "8", "--timeout=600", "--tb=line",
                        "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=str(cp), env=e, stdout=open(f"/tmp/w/sd/{s['id']}.log", "w"), stderr=subprocess.STDOUT)
        import xml.etree.ElementTree as ET
        su = ET.parse(x).getroot().find("testsuite")
        tail = {k: int(su.get(k)) for k in ("tests", "failures", "errors", "skipped")}
        good = tail["failures"] == 0 and tail["errors"] == 0 and tail["tests"] - tail["skipped"] >= 1184
        print("   tests:", tail, flush=True)
    if good:
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(tmp / n, d / n)
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        print("   KEPT", flush=True)
    else:
        print("   DROPPED", flush=True)
    shutil.rmtree(cp, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
