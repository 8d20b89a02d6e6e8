#!/bin/bash
# mkmut.sh file.py name dir : materialise one mutant
python3 - "$@" <<'P'
import sys,shutil,os
ns={}; exec(open(sys.argv[1]).read(),ns); t=sys.argv[3]
shutil.rmtree(t,ignore_errors=True)
for d in ("src","3rd_party","concepts"):
    if os.path.isdir("/repo/"+d): shutil.copytree("/repo/"+d,t+"/"+d,symlinks=True)
for n,p,ed,k in ns["M"]:
    if n==sys.argv[2]:
        for f,a,b in ed:
            s=open(f"{t}/{f}").read(); assert a in s; open(f"{t}/{f}","w").write(s.replace(a,b))
P
