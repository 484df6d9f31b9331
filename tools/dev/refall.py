"""refall.py LIST...: runs every check on every refactoring of the lists, and prints what is not quiet."""
import sys,subprocess,os,queue,json,concurrent.futures
W=int(os.environ.get("W","4"))
BASE=os.environ.get("BASE","/tmp/ra")
V=os.environ.get("VF","/verif")
only=os.environ.get("ONLY","").split()
props=os.environ.get("PROPS","").split() or [c["property"] for c in json.load(open(V+"/MANIFEST.json"))["checks"]]
q=queue.Queue()
import fcntl
held,i=[],0
while len(held)<W:
    d=BASE+"/%d"%i; R=d+"/repo"; i+=1
    os.makedirs(d,exist_ok=True)
    l=open(d+"/lock","w")
    try: fcntl.flock(l,fcntl.LOCK_EX|fcntl.LOCK_NB)
    except OSError: continue
    held.append(l)
    if not os.path.exists(R):
        subprocess.run(["cp","-a","/repo",R],check=True); subprocess.run(["cp","-a","/verif/.cache",d+"/cache"],check=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq",shell=True,cwd=R,check=True)
    q.put(d)
M=[]
for l in sys.argv[1:]:
    g={}; exec(open(l).read(),g)
    M+=[(os.path.basename(l)[:-3]+":"+m[0],)+tuple(m[1:]) for m in g["M"] if not m[2] and (not only or any(o in m[0] for o in only))]
def one(x):
    name,_,exp,edits=x
    d=q.get(); R=d+"/repo"
    try:
        subprocess.run("git checkout -q -- .",shell=True,cwd=R,check=True)
        for f,o,n in edits:
            s=open(f"{R}/{f}").read()
            if s.count(o)<1: return name,99,"does not apply: %s %r"%(f,o)
            open(f"{R}/{f}","w").write(s.replace(o,n))
        env=dict(os.environ,VF_REPO=R,VF_CACHE=d+"/cache",VF_EVID=d+"/evid")
        r=subprocess.run(["python3","-m","vf.check"]+props,cwd=V,env=env,capture_output=True,text=True)
        return name,r.returncode,r.stdout+r.stderr[-1500:]
    finally:
        subprocess.run("git checkout -q -- .",shell=True,cwd=R); q.put(d)
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    for name,rc,out in ex.map(one,M):
        print(("ok  " if rc==0 else "BAD ")+name,rc)
        if rc:
            ls=[l for l in out.splitlines() if not l.startswith("P")]
            seen={}
            for l in ls:
                if l.startswith("VIOLATION"): print("    ",l[:60])
            n=0
            for l in ls:
                if l.startswith("  ") and n<14: print("      ",l[:260]); n+=1
            if rc!=1: print(out[-1500:])
        sys.stdout.flush()
