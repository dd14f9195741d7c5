"""mut.py FILE CHECK... : apply each simple mutation of FILE (list in stdin as 'old ==> new' lines) and run checks"""
import subprocess, sys, os, shutil
f, checks = sys.argv[1], sys.argv[2:]
W="/tmp/mutwt"
if not os.path.exists(W):
    subprocess.run(["git","-C","/repo","worktree","add","-f",W,"HEAD"],check=True,capture_output=True)
src=open("/repo/"+f).read()
muts=[l.rstrip("\n").split(" ==> ") for l in sys.stdin if " ==> " in l]
for m in muts:
    old,new=m[0].replace("\\n","\n").replace("\\t","\t"),m[1].replace("\\n","\n").replace("\\t","\t")
    if src.count(old)<1:
        print("NOT FOUND", m); continue
    n = int(m[2]) if len(m)>2 else 0
    parts=src.split(old)
    mutated=old.join(parts[:n+1])+new+old.join(parts[n+1:])
    open(W+"/"+f,"w").write(mutated)
    for c in checks:
        r=subprocess.run(["python3","/verif/check.py",c],cwd="/verif",env=dict(os.environ,NSCA_REPO=W),capture_output=True,text=True,timeout=900)
        print(r.returncode, c, m, (r.stdout.strip().split("\n") or [""])[0][:150], flush=True)
open(W+"/"+f,"w").write(src)
subprocess.run(["git","-C","/repo","worktree","remove","--force",W],capture_output=True)
