#!/usr/bin/env python3
"""batch.py SPEC.py : SPEC defines BUGS=[dict(id,prop,file|edits,old,new,docs|demo,needs,breaks)]; plants each in /repo, verifies, keeps good ones."""
import sys,os,subprocess,json,shutil,importlib.util,time
spec=importlib.util.spec_from_file_location("s",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
want=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert not sh("git -C /repo status --porcelain").stdout.strip()
clean={}
bugs=[b for b in m.BUGS if not only or b["id"] in only]
# demos on clean tree first
assert sh("bash /opt/vp/build.sh").returncode==0
for b in bugs:
    d="/verif/seeded/"+b["id"]; os.makedirs(d,exist_ok=True)
    if "docs" in b: subprocess.run(["bash","/tmp/pb/mkval.sh",b["id"]]+b["docs"])
    else: b["demo"](d)
    r=sh("cd /repo && timeout 300 bash %s/demo.sh"%d); clean[b["id"]]=r.returncode
    if r.returncode: print("CLEAN-DEMO-FAILS",b["id"],r.returncode,(r.stdout+r.stderr)[-1500:])
for b in bugs:
    d="/verif/seeded/"+b["id"]
    if clean[b["id"]]: shutil.rmtree(d); continue
    for f,o,n in b.get("edits") or [(b["file"],b["old"],b["new"])]:
        p="/repo/"+f; s=open(p).read()
        if s.count(o)<1: print("NOT-FOUND",b["id"],repr(o[:60])); break
        s=s.replace(o,n,1) if b.get("which",0)==0 else s.replace(o,"\0").replace("\0",o,b["which"]).replace("\0",n,1).replace("\0",o)
        open(p,"w").write(s)
    else:
        open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
        json.dump({"property":b["prop"].split(",")[0],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
        sh("bash /opt/vp/test.sh /tmp/pb/t.json > /tmp/pb/t.log 2>&1")
        try: got=set(json.load(open('/tmp/pb/t.json'))['passed'])
        except Exception: got=set()
        miss=want-got
        r=sh("cd /repo && timeout 300 bash %s/demo.sh"%d)
        res=[]
        for p in b["prop"].split(","):
            c=sh("cd /verif && timeout 900 python3 sa/check.py "+p)
            res.append("%s:%s"%(p,{0:"missed",1:"CAUGHT"}.get(c.returncode,"BROKEN")))
            b["out"]=c.stdout
        ok=not miss and r.returncode!=0
        print(b["id"],"VALID" if ok else "INVALID tests-broken=%d demo=%d %s"%(len(miss),r.returncode,sorted(miss)[:2]),*res,flush=True)
        if ok: print("   ","\n    ".join([l for l in b["out"].splitlines() if "rule" in l or "BROKEN" in l][:4]))
        else: shutil.rmtree(d)
    sh("git -C /repo checkout -q -- .")
sh("bash /opt/vp/build.sh")
