"""mut.py FILE [NAME...]: FILE defines M = [(name, props, expect(1 viol/0 quiet), [(file,old,new)...])]. Runs W of them side by side."""
import sys,subprocess,os,queue,concurrent.futures
W=int(os.environ.get("W","4"))
q=queue.Queue()
import fcntl
held,i=[],0
while len(held)<W:
    d="/tmp/m"+"/%d"%i; R=d+"/repo"; i+=1
    os.makedirs(d,exist_ok=True)
    l=open(d+"/lock","w")
    try: fcntl.flock(l,fcntl.LOCK_EX|fcntl.LOCK_NB)
    except OSError: continue
    held.append(l)
    if not os.path.exists(R):
        subprocess.run(["cp","-a","/repo",R],check=True); subprocess.run(["cp","-a","/verif/.cache",d+"/cache"],check=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq",shell=True,cwd=R,check=True)
    q.put(d)
g={}; exec(open(sys.argv[1]).read(),g)
def one(x):
    name,props,exp,edits=x
    d=q.get(); R=d+"/repo"
    try:
        subprocess.run("git checkout -q -- .",shell=True,cwd=R,check=True)
        for f,o,n in edits:
            s=open(f"{R}/{f}").read()
            if s.count(o)<1: return name,exp,99,"does not apply: %s %r"%(f,o),""
            open(f"{R}/{f}","w").write(s.replace(o,n))
        env=dict(os.environ,VF_REPO=R,VF_CACHE=d+"/cache",VF_EVID=d+"/evid")
        r=subprocess.run(["python3","-m","vf.check"]+props.split(),cwd=os.environ.get("VF","/verif"),env=env,capture_output=True,text=True)
        return name,exp,r.returncode,r.stdout,r.stderr
    finally:
        subprocess.run("git checkout -q -- .",shell=True,cwd=R); q.put(d)
bad=[]
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    for name,exp,rc,out,er in ex.map(one,[x for x in g["M"] if len(sys.argv)<3 or any(a in x[0] for a in sys.argv[2:])]):
        ok = (rc==1)==bool(exp) and rc in (0,1)
        print(("ok  " if ok else "BAD ")+name, "rc",rc)
        lines=[l for l in out.splitlines() if l.startswith("  ")]
        v="" if os.environ.get("V") else None
        for l in lines[:(1 if v is not None else 0) if ok else 8]: print("      ",l[:300])
        if not ok: bad.append(name); print(out[-400:], er[-600:])
        sys.stdout.flush()
print(len(bad),"bad",bad)
