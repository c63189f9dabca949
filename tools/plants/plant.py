#!/usr/bin/env python3
"""Development tool: generate and confirm planted bugs (never used by a check).
plant.py BUGFILE [ID...]  writes /verif/seeded/<id>/ for every confirmed bug."""
import sys, os, subprocess, shutil, json, importlib.util, tempfile
here = os.path.dirname(os.path.abspath(__file__))
seeded = "/verif/seeded"
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
prelude = open(here + "/prelude.go.txt").read()
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
for b in m.B:
    if only and b["id"] not in only: continue
    if not only and os.path.exists(f"{seeded}/{b['id']}/meta.json"): continue
    w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        bad = None
        for f, old, new in b["edits"]:
            p = f"{w}/r/gitdiff/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"edit of {f}: {s.count(old)} matches: {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(b["id"], "BAD", bad); continue
        diff = subprocess.run(["git", "diff"], cwd=w + "/r", stdout=subprocess.PIPE, text=True).stdout
        r = sh("gofmt -l gitdiff/*.go; go vet ./... && go test ./... 2>&1 | tail -15", w + "/r")
        if "ok " not in r.stdout: print(b["id"], "TESTS FAIL", r.stdout[-600:]); continue
        d = f"{w}/out"; os.mkdir(d)
        open(d + "/demo_test.go.txt", "w").write(prelude + "\nfunc TestDemo(t *testing.T) {" + b["demo"] + "}\n")
        demo = open(here + "/demo.sh").read().replace(" RACEFLAG", " -race" if b["race"] else "")
        open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
        r1 = sh(f"{d}/demo.sh", "/repo"); r2 = sh(f"{d}/demo.sh", w + "/r")
        if r1.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN", r1.stdout[-800:]); continue
        if r2.returncode == 0 or "build failed" in r2.stdout: print(b["id"], "DEMO PASSES WITH BUG", r2.stdout[-800:]); continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        t = f"{seeded}/{b['id']}"
        os.makedirs(seeded, exist_ok=True)
        if os.path.exists(t): shutil.rmtree(t)
        shutil.copytree(d, t)
        print(b["id"], "ok", "" if "gitdiff" not in r.stdout.split("ok ")[0] else r.stdout)
    finally:
        shutil.rmtree(w)
