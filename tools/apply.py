#!/usr/bin/env python3
"""apply.py N DIR: export /repo's HEAD to DIR with self-test edit N applied."""
import sys, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT=[]
def M(p,f,*q):MUT.append(('M',p,f,q))
def R(p,f,*q):MUT.append(('R',p,f,q))
exec(open(os.path.join(V,'tools','mutants.py')).read())
k,p,f,q=MUT[int(sys.argv[1])]; d=sys.argv[2]
os.makedirs(d,exist_ok=True)
subprocess.run("cd /repo && git archive HEAD go.mod go.sum chain cmd common | tar -x -C "+d,shell=True,check=True)
s=open(d+'/'+f).read()
for a,b in q:
    assert a in s, a
    s=s.replace(a,b,1)
open(d+'/'+f,'w').write(s)
print(k,p,f)
