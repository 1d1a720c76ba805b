"""Behaviour-preserving edits: all checks named must stay quiet on each. Usage: quiet.py LIST.py OUT.txt [id...]"""
import sys, os, subprocess, shutil, runpy, time
LIST, OUT = sys.argv[1], sys.argv[2]; only=set(sys.argv[3:])
W=os.environ.get("MUTW","/tmp/mutwq")
muts=runpy.run_path(LIST)["MUTS"]
env=dict(os.environ,VERIF_REPO=W,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="",HOME="/root")
out=open(OUT,"a")
def say(s): print(s,flush=True); out.write(s+"\n"); out.flush()
for m in muts:
    if only and m[0] not in only: continue
    shutil.rmtree(W,ignore_errors=True); subprocess.run(["git","clone","-q","/repo",W],check=True)
    ok=True
    ed=m[3:]
    for old,new in zip(ed[::2],ed[1::2]):
        f=m[2]
        if isinstance(old,tuple): f,old=old
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: say("%s BAD EDIT %d %r"%(m[0],s.count(old),old[:60])); ok=False; break
        open(p,"w").write(s.replace(old,new))
    if not ok: continue
    open(W+".work","w").write("go 1.22.2\nuse (\n\t%s\n\t%s/bencode\n)\n"%(W,W))
    p=subprocess.run("go vet ./... ./bencode/... ; go test -vet=off -count=1 ./... ./bencode/... 2>&1 | grep -v '^ok\\|no test files'",shell=True,cwd=W,env=dict(env,GOWORK=W+".work"),capture_output=True,text=True)
    if p.stdout.strip() or p.stderr.strip(): say("%s build/tests: %s"%(m[0],(p.stdout+p.stderr)[-1500:])); 
    for c in m[1].split():
        t=time.time()
        p=subprocess.run([os.environ.get("MUTV","/verif")+"/check",c,"quick"],env=env,capture_output=True,text=True)
        say("%s %s %s rc=%d %.0fs %s"%("quiet" if p.returncode==0 else "ALARM",m[0],c,p.returncode,time.time()-t,"" if p.returncode==0 else (p.stdout+p.stderr)[-600:]))
