#!/usr/bin/env python3
# automut.py N FILE[:from-to] PROPS [FILE PROPS ...]: single-point mutants of the files that build and pass the tests, and
# which of them no check of PROPS reports. N at a time, in scratch copies. Needs /tmp/automut (tools/automut).
import sys,subprocess,os,shutil,json,threading,queue,random
N=int(sys.argv[1]); jobs=[]
random.seed(int(os.environ.get("SEED","1"))); frac=float(os.environ.get("FRAC","1"))
a=sys.argv[2:]
for f,props in zip(a[::2],a[1::2]):
    lo,hi=0,1<<30
    if ":" in f: f,r=f.split(":"); lo,hi=map(int,r.split("-"))
    for l in subprocess.run(["/tmp/automut","/repo/"+f],capture_output=True,text=True).stdout.splitlines():
        m=json.loads(l)
        if lo<=m["line"]<=hi and random.random()<frac: jobs.append((f,props.split(),m))
random.shuffle(jobs)
q=queue.Queue(); [q.put(j) for j in jobs]
print(len(jobs),"mutants",flush=True)
stat={}; lock=threading.Lock()
def work(w):
    d=f"/tmp/am/w{w}"; shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/am",exist_ok=True); shutil.copytree("/repo",d,symlinks=True)
    while True:
        try: f,props,m=q.get_nowait()
        except queue.Empty: break
        b=open("/repo/"+f,"rb").read()
        open(f"{d}/{f}","wb").write(b[:m["off"]]+m["new"].encode()+b[m["off"]+m["len"]:])
        res="?"; det=""
        try:
            if subprocess.run(["go","vet","-vettool=/bin/true","./..."] if False else ["go","build","./..."],cwd=d,capture_output=True).returncode: res="nobuild"
            else:
                try: t=subprocess.run(["go","test","-count=1","-timeout=40s","./..."],cwd=d,capture_output=True,timeout=90).returncode
                except subprocess.TimeoutExpired: t=1
                if t: res="tests"
                else:
                    res="MISSED"
                    for p in props:
                        r=subprocess.run(["/verif/bin/govc","-repo",d,"check",p],capture_output=True,text=True)
                        v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                        if v: res="no-input" if "no-failing" in v[0] else "INPUT"; det=p; break
                        if r.returncode: res=f"rc={r.returncode}"; det=p; break
        finally: open(f"{d}/{f}","wb").write(b)
        with lock:
            stat[res]=stat.get(res,0)+1
            if res not in("nobuild","tests"): print(res,det,f,m["line"],m["what"].replace("\n"," ")[:160],flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]; print(stat)
