#!/usr/bin/env python3
# usage: seed.py SPEC.py  -- SPEC defines id, property, needs, breaks, edits=[(file, old, new)...], files={name: text}
# writes /verif/seeded/<id>/{patch.diff,meta.json,demo.sh,...}
import sys,os,json,subprocess,runpy,shutil
s=runpy.run_path(sys.argv[1])
d="/verif/seeded/"+s["id"]; os.makedirs(d,exist_ok=True)
wt="/tmp/seedwt"; subprocess.run(["git","-C","/repo","worktree","remove","--force",wt],stderr=subprocess.DEVNULL)
subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",wt],check=True)
try:
    for f,o,n in s["edits"]:
        p=wt+"/"+f; t=open(p).read(); assert t.count(o)==1,(f,o,t.count(o)); open(p,"w").write(t.replace(o,n))
    diff=subprocess.run(["git","-C",wt,"diff"],stdout=subprocess.PIPE,check=True).stdout
finally:
    subprocess.run(["git","-C","/repo","worktree","remove","--force",wt])
open(d+"/patch.diff","wb").write(diff)
json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
DEMO='''#!/bin/bash
# exit 0: the property held. Builds the crate beside this file against the sources in the current directory.
set -u
R=$PWD; H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "${T:?}"' EXIT
cp -r "$H/demo" "$T/demo"
sed -i "s#@REPO@#$R#g" "$T/demo/Cargo.toml" "$T"/demo/src/*.rs
export CARGO_TARGET_DIR=$T/target CARGO_NET_OFFLINE=true
cd "$T/demo" && cargo build --offline -q 2>"$T/err" || { cat "$T/err"; exit 1; }
timeout 100 "$T/target/debug/demo"
c=$?; [ $c = 0 ] || { echo "demo failed: $c"; exit 1; }
'''
open(d+"/demo.sh","w").write(s.get("demo",DEMO)); os.chmod(d+"/demo.sh",0o755)
CARGO='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\n'
for n,t in s.get("files",{}).items():
    p=d+"/"+n; os.makedirs(os.path.dirname(p),exist_ok=True)
    if n.endswith("Cargo.toml"): t=CARGO+t
    open(p,"w").write(t)
if "demo/Cargo.toml" in s.get("files",{}): shutil.copy("/repo/Cargo.lock",d+"/demo/Cargo.lock")
print(d)
