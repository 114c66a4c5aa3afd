#!/usr/bin/env python3
"""Developer self-test: apply small edits to scratch copies of /repo and compare the verdicts.
usage: mut.py [filter]   (edits are in tools/mutants.py; M = must be caught, R = must stay quiet)"""
import subprocess, sys, os, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 6
MUT = []
def M(prop, file, *pairs): MUT.append(("M", prop, file, pairs))
def R(prop, file, *pairs): MUT.append(("R", prop, file, pairs))
exec(open(os.path.join(V, "tools", "mutants.py")).read())
ALL = os.environ.get("MUT_ALL")  # every refactoring against every property
flt = sys.argv[1] if len(sys.argv) > 1 else ""
B = "/tmp/mutw.%d" % os.getpid()
subprocess.run(["rm", "-rf", B])
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOMAXPROCS="2")
os.makedirs(B)
subprocess.run(["go", "build", "-o", B + "/an", "."], cwd=os.path.join(V, "analyzer"), env=env, check=True)
Q = queue.Queue()
for w in range(N):
    os.makedirs("%s/r%d" % (B, w)); os.makedirs("%s/v%d" % (B, w))
    subprocess.run("cd /repo && git archive HEAD go.mod go.sum chain cmd common | tar -x -C %s/r%d" % (B, w), shell=True, check=True)
    shutil.copy(os.path.join(V, "known-findings.txt"), "%s/v%d/" % (B, w))
    Q.put(w)
def one(job):
    i, (k, prop, file, pairs) = job
    tag = "%s#%d %s %s" % (k, i, prop, file)
    if flt and flt not in tag: return None
    if ALL and k == "M": return None
    w = Q.get()
    try:
        W = "%s/r%d" % (B, w)
        p = os.path.join(W, file); orig = open(p).read(); s = orig
        try:
            for a, b in pairs:
                if a not in s: return "STALE %s %r" % (tag, a[:60])
                s = s.replace(a, b, 1)
            open(p, "w").write(s)
            r = subprocess.run([B + "/an", "-repo", W, "-verif", "%s/v%d" % (B, w), "-prop", "all" if ALL and k == "R" else prop], capture_output=True, text=True, env=env)
            out = r.stdout
            if "could not be loaded" in out: return "NOBUILD %s %s" % (tag, out[:400])
            if k == "M" and "VIOLATION" not in out: return "MISSED %s %s" % (tag, pairs[0][1][:70].replace("\n", "\\n"))
            if k == "R" and r.returncode != 0: return "FALSE ALARM %s %s" % (tag, "\n".join(l for l in out.split("\n") if not l.startswith("OK"))[:900])
            if "-v" in sys.argv: print("good", tag, out.split("\n")[0][:200])
            return ""
        finally:
            open(p, "w").write(orig)
    finally:
        Q.put(w)
n = bad = 0
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(one, enumerate(MUT)):
        if r is None: continue
        n += 1
        if r: bad += 1; print(r, flush=True)
print("%d edits, %d problems" % (n, bad))
subprocess.run(["rm", "-rf", B])
