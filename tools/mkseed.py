#!/usr/bin/env python3
# mkseed.py SEEDS.py [ids]: builds seeded/<id>/ from a list of
# dict(id,prop,edits=[(path,old,new)],needs,breaks,pkg,test[,race]) and validates each one in a scratch copy:
# applies, builds, stable tests pass, demo 0 without and nonzero with the patch.
import sys,os,json,subprocess,shutil,textwrap
seeds=eval(open(sys.argv[1]).read()); only=set(sys.argv[2:])
S="/tmp/seedrepo"
base=set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing",[]) or [])
def sh(c,cwd=None,timeout=400):
    try: p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
    except subprocess.TimeoutExpired as e: return 124,"timeout"
    return p.returncode,p.stdout+p.stderr
for s in seeds:
    if only and s["id"] not in only: continue
    shutil.rmtree(S,ignore_errors=True)
    sh(f"git clone -q /repo {S}")
    for path,old,new in s["edits"]:
        f=f"{S}/{path}"; t=open(f).read()
        n=t.count(old)
        if n!=1: print(s["id"],"PATTERN COUNT",n,repr(old[:60])); break
        open(f,"w").write(t.replace(old,new))
    else:
        d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(["git","diff"],cwd=S,capture_output=True,text=True).stdout
        open(d+"/patch.diff","w").write(diff)
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        open(d+"/demo_test.go.txt","w").write(s["test"].strip()+"\n")
        pk=s["pkg"]; race="-race " if s.get("race") else ""
        open(d+"/demo.sh","w").write(textwrap.dedent(f"""\
            #!/bin/bash
            # exit 0 when the property holds for the input below, nonzero otherwise
            d=$(cd "$(dirname "$0")" && pwd)
            t=$(mktemp -d) || exit 0
            trap 'rm -rf "$t"' EXIT
            echo "{{\\"Replace\\":{{\\"$PWD/{pk}/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}}}" > "$t/overlay.json"
            timeout 240 go test {race}-count=1 -timeout=200s -vet=off -overlay "$t/overlay.json" -run 'TestZZDemo' ./{pk}
            """))
        os.chmod(d+"/demo.sh",0o755)
        bad,out=sh("go build ./... && go vet -unsafeptr=false ./... >/dev/null 2>&1; go build ./...",S)
        tests,tout=sh("go test -count=1 ./...",S)
        dem,dout=sh(f"bash {d}/demo.sh",S)
        sh("git checkout -q -- .",S)
        ok,oout=sh(f"bash {d}/demo.sh",S)
        print(s["id"],s["prop"],"build",bad,"tests",tests,"demo-bug",dem,"demo-ok",ok, "OK" if (bad,tests,ok)==(0,0,0) and dem not in (0,) and "build failed" not in dout else "<<<<<< BAD")
        if ok!=0: print(oout[-1500:])
        if "build failed" in dout or "setup failed" in dout: print(dout[-1500:])
        if tests: print(tout[-800:])
        sys.stdout.flush()
shutil.rmtree(S,ignore_errors=True)
