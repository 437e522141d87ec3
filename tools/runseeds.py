"""run the property's check (or all given checks) against each seeded bug in scratch copies"""
import json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
def one(i):
    w = tempfile.mkdtemp(prefix="sd.")
    try:
        subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
        subprocess.check_call(["git","-C",w+"/r","apply",f"/verif/seeded/{i}/patch.diff"])
        p = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        t=time.time()
        r = subprocess.run([os.path.join(V,"check"),p,"quick"],cwd=V,capture_output=True,text=True,
            env=dict(os.environ,TA_ROOT=w+"/r",VERIF_JOBS="4",VERIF_EVIDENCE=w, TMPDIR=w))
        v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return i,p,r.returncode,len(v),time.time()-t,(r.stdout.splitlines() or [""])[0][:150], r.stderr[-200:]
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(2) as ex:
    for i,p,rc,v,t,l,e in ex.map(one,ids):
        print(("CAUGHT" if rc==1 and v else "MISSED"),i,p,rc,v,f"{t:.0f}s",l,e if rc not in (0,1) else "",flush=True)
