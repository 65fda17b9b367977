#!/usr/bin/env python3
# runseeds.py [ids]: runs each seeded bug's property check against a scratch copy with the bug applied
import sys,os,json,subprocess,shutil,time,glob
from concurrent.futures import ThreadPoolExecutor
ids=sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob("/verif/seeded/*/patch.diff"))
def one(i):
    m=json.load(open(f"/verif/seeded/{i}/meta.json")); p=m["property"]
    S=f"/tmp/rs/{i}"; shutil.rmtree(S,ignore_errors=True); os.makedirs("/tmp/rs",exist_ok=True)
    subprocess.run(f"git clone -q /repo {S} && git -C {S} apply /verif/seeded/{i}/patch.diff",shell=True,check=True)
    t=time.time()
    r=subprocess.run(["/verif/bin/govc","-repo",S,"check",p],capture_output=True,text=True,cwd="/verif")
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    open(f"/tmp/rs/{i}.out","w").write(r.stdout+r.stderr)
    shutil.rmtree(S,ignore_errors=True)
    return f"{i} {p} rc={r.returncode} {time.time()-t:.0f}s {'no-input' if v and 'no-failing' in v[0] else 'INPUT' if v else 'MISSED'}"
with ThreadPoolExecutor(2) as ex:
    for l in ex.map(one,ids): print(l,flush=True)
