#!/usr/bin/env python3
"""Build and confirm planted bugs (developer tool). usage: mkseed.py [id-filter]
Reads tools/seeds/*.py; each calls seed(id, prop, needs, breaks, pkg, [(file, old, new)...], test_source)."""
import subprocess, sys, os, json, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, needs, breaks, pkg, edits, test, race=False): S.append((id, prop, needs, breaks, pkg, edits, test, race))
for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))): exec(open(f).read())
flt = sys.argv[1] if len(sys.argv) > 1 else ""
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
subprocess.run(["go", "build", "-o", "/tmp/seedan", "."], cwd=os.path.join(V, "analyzer"), env=env, check=True)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) )
W = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour holds, nonzero when it is broken. Run with cwd = the repository root.
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/demo_test.go.txt" "$work/zz_demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$work/zz_demo_test.go" > "$work/overlay.json"
TMPDIR="$work" go test -overlay "$work/overlay.json" -vet=off -count=1 -timeout 120s -run 'TestZZDemo' "./%(pkg)s"
'''
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.run("cd /repo && git archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (W, W), shell=True, check=True)
os.makedirs("/tmp/mutverif", exist_ok=True); shutil.copy(os.path.join(V, "known-findings.txt"), "/tmp/mutverif/")
for id, prop, needs, breaks, pkg, edits, test, race in S:
    if flt and flt not in id: continue
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    ok = True
    for file, a, b in edits:
        p = os.path.join(W, file); s = open(p).read()
        if s.count(a) < 1: print(id, "STALE", repr(a[:50])); ok = False
        open(p, "w").write(s.replace(a, b, 1))
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=pkg)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go.txt"), "w").write(test)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    b = subprocess.run(["go", "build", "./..."], cwd=W, env=env, capture_output=True, text=True)
    t = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./common/..."], cwd=W, env=env, capture_output=True, text=True)
    passed = sum(1 for l in t.stdout.split("\n") if '"Action":"pass"' in l and '"Test"' in l)
    failed = [json.loads(l)["Test"] for l in t.stdout.split("\n") if '"Action":"fail"' in l and '"Test"' in l]
    dm = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, capture_output=True, text=True)
    an = subprocess.run(["/tmp/seedan", "-repo", W, "-verif", "/tmp/mutverif", "-prop", "all"], capture_output=True, text=True)
    hits = sorted(set(l.split("property=")[1].split()[0] for l in an.stdout.split("\n") if l.startswith("VIOLATION")))
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
    dc = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=W, capture_output=True, text=True)
    print(id, prop, "build=%d" % b.returncode, "fails=%s" % failed[:5], "demo_with=%d demo_clean=%d" % (dm.returncode, dc.returncode), "caught_by=%s" % hits, "" if prop in hits and dm.returncode and not dc.returncode and ok else "<<<<<")
    if not dm.returncode or dc.returncode or "-v" in sys.argv: print((dm.stdout + dm.stderr)[-600:], "---clean", (dc.stdout + dc.stderr)[-800:])
shutil.rmtree(W, ignore_errors=True)
