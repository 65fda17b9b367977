#!/usr/bin/env python3
# mut.py FILE PROPS...: reads mutants from FILE (python list of (name, path, old, new)), applies each to a scratch copy,
# builds, runs the stable tests, and reports what the checks say. Scratch only; /repo is untouched.
import sys,subprocess,os,shutil,json
g={}; src=open(sys.argv[1]).read(); i=src.index("[\n"); exec(src[:i],g); muts=eval(src[i:],g); only=sys.argv[2:] 
for m in muts:
    name,props,path,old,new=m[:5]
    if only and not any(o in name for o in only): continue
    d=os.environ.get("MUTDIR","/tmp/m/repo")
    shutil.rmtree(d,ignore_errors=True); shutil.copytree("/repo",d,symlinks=True)
    ps=[path] if isinstance(path,str) else path
    edits=[(path,old,new)] if isinstance(path,str) else list(zip(path,old,new))
    ok=True
    for p,o,n in edits:
        s=open(f"{d}/{p}").read()
        if o not in s: print(name,"PATTERN NOT FOUND",p); ok=False; break
        open(f"{d}/{p}","w").write(s.replace(o,n,1))
    if not ok: continue
    b=subprocess.run(["go","vet","./..."],cwd=d,capture_output=True,text=True) if False else subprocess.run(["go","build","./..."],cwd=d,capture_output=True,text=True)
    if b.returncode: print(name,"BUILD FAILS",b.stderr[:300]); continue
    t=subprocess.run(["go","test","-count=1","-timeout=60s","./..."],cwd=d,capture_output=True,text=True)
    line=f"{name}: tests {'pass' if t.returncode==0 else 'FAIL'}"
    for p in props.split():
        r=subprocess.run(["/verif/bin/govc","-repo",d,"check",p],capture_output=True,text=True)
        out=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        line+=f" | {p} rc={r.returncode} {'no-input' if out and 'no-failing' in out[0] else ('INPUT' if out else '')}"
        open(f"/tmp/m/{name}.{p}.out","w").write(r.stdout+r.stderr)
    print(line,flush=True)
    shutil.rmtree(d,ignore_errors=True)
