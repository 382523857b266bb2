#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines seeds=[dict(id,property,edits=[(file,old,new)],needs,breaks,demo,pkg)].
Builds /verif/seeded/<id> and confirms it in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 iff the demonstration passes
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$here/demo.go\\"}}" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -count=1 -run 'TestZZDemo' ./PKG
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
for s in spec["seeds"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    run(f"git -C /repo worktree prune; cp -a /repo {tmp}/repo")
    r = tmp + "/repo"
    ok = True
    for f, old, new in s["edits"]:
        t = open(f"{r}/{f}").read()
        if t.count(old) != 1:
            print(s["id"], "EDIT does not match once:", t.count(old), old); ok = False; break
        open(f"{r}/{f}", "w").write(t.replace(old, new))
    if not ok: shutil.rmtree(tmp); continue
    diff = run(f"git -C {r} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    pkg = s.get("pkg", ".")
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("PKG", pkg).replace("go test -overlay", "go test " + s["flags"] + " -overlay" if s.get("flags") else "go test -overlay")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = run(f"bash {d}/demo.sh", cwd="/repo")
    b = run(f"bash {d}/demo.sh", cwd=r)
    env = dict(os.environ)
    # stable tests in the copy
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = run("go vet . >/dev/null 2>&1; go build ./... && go test ./... 2>&1 | tail -40", cwd=r, env={**env, "PATH": "/opt/veriftools/go1.27.3/bin:" + env["PATH"], "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod"})
    print(s["id"], "clean:", a.returncode, "patched:", b.returncode, "tests:", "FAIL" if "FAIL" in t.stdout or t.returncode else "ok")
    if a.returncode: print(a.stdout[-1500:], a.stderr[-500:])
    if b.returncode == 0: print("  DEMO DOES NOT FAIL", b.stdout[-500:])
    elif "build failed" in b.stdout or "setup failed" in b.stdout: print("  BUILD FAIL", b.stdout[-800:], b.stderr[-500:])
    if "FAIL" in t.stdout: print(t.stdout[-1500:])
    shutil.rmtree(tmp)
