#!/usr/bin/env python3
# usage: ref.py SPEC.py  -- SPEC defines refs=[(id, "CHECKS", [(file, old, new)...])]; writes refactors/<id>/{patch.diff,checks}
# edits that keep the behaviour; every check has to stay quiet on them (tools/refcheck.sh)
import sys,os,subprocess,runpy
wt="/tmp/refwt"
for id,checks,edits in runpy.run_path(sys.argv[1])["refs"]:
    d="/verif/refactors/"+id; os.makedirs(d,exist_ok=True)
    subprocess.run(["git","-C","/repo","worktree","remove","--force",wt],stderr=subprocess.DEVNULL)
    subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",wt],check=True)
    try:
        for f,o,n in edits:
            p=wt+"/"+f; t=open(p).read(); assert t.count(o)==1,(id,f,o,t.count(o)); open(p,"w").write(t.replace(o,n))
        diff=subprocess.run(["git","-C",wt,"diff"],stdout=subprocess.PIPE,check=True).stdout
    finally: subprocess.run(["git","-C","/repo","worktree","remove","--force",wt])
    open(d+"/patch.diff","wb").write(diff); open(d+"/checks","w").write(checks+"\n")
    print(d)
