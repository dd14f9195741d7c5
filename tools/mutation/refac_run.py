import sys,os,subprocess,shutil,concurrent.futures as cf
spec=sys.argv[1]; checks=sys.argv[2:] or ["C%02d"%i for i in range(1,34)]
g={}; exec(open(spec).read(),g)
w="/tmp/refac/w-"+os.path.basename(spec)[:-3]
shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
subprocess.run(["cp","-a","/repo",w],check=True); subprocess.run(["cp","-a","/verif",w],check=True)
for f,a,b,n in g["EDITS"]:
    p=w+"/repo/"+f; t=open(p).read()
    if t.count(a)!=n: print("COUNT",t.count(a),f,a[:80]); sys.exit(1)
    open(p,"w").write(t.replace(a,b))
def ns(script,t=1200):
    return subprocess.run(["unshare","-mnpf","--kill-child","--mount-proc","bash","-c",f"ip link set lo up; mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && {script}"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=t,env={**os.environ,"VERIF_SEED":"1","VERIF_TIER":"quick"})
r=ns("cd /repo && bash /opt/vp/build.sh 2>&1 | tail -30"); print(r.stdout[-1500:] if "rror" in r.stdout or r.returncode else "built")
r=ns(f"bash /opt/vp/test.sh {w}/o.json >/dev/null 2>&1; python3 -c \"import json;d=json.load(open('{w}/o.json'));print(len(d['passed']))\""); print("tests",r.stdout.strip())
def one(c):
    r=ns(f"cd /verif && python3 check.py {c}")
    return c,r
ns("cd /verif && python3 check.py --setup")
with cf.ThreadPoolExecutor(int(os.environ.get("W","2"))) as ex:
    for c,r in ex.map(one,checks):
        print(r.returncode,c,"" if r.returncode==0 and "not observed" not in r.stdout else r.stdout[-1500:],flush=True)
os.environ.get("KEEP") or shutil.rmtree(w)
