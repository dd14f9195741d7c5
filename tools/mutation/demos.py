import os,sys,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,"/verif/tools")
import seed
ids=sys.argv[1:] or sorted(d for d in os.listdir("/verif/seeded") if os.path.isdir("/verif/seeded/"+d))
def one(i):
    w=seed.scratch()
    try:
        shutil.copytree("/verif/seeded/"+i,w+"/d")
        r0=seed.ns(w,f"bash /opt/vp/build.sh >/dev/null 2>&1; sh {w}/d/demo.sh")
        r1=seed.ns(w,f"git apply {w}/d/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; sh {w}/d/demo.sh")
        ok = r0.returncode==0 and r1.returncode!=0
        print("ok " if ok else "BAD", i, r0.returncode, r1.returncode, "" if ok else (r0.stdout[-300:],r1.stdout[-300:]), flush=True)
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(5) as ex: list(ex.map(one,ids))
