"""mk.py FILE...: each FILE is python defining ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)...], DEMO."""
import sys, os, subprocess, json, shutil
os.makedirs("/tmp/seed",exist_ok=True)
R=os.environ.get("SEEDREPO","/tmp/seed/repo")
if not os.path.exists(R): subprocess.run(["cp","-a","/repo",R],check=True)
for f in sys.argv[1:]:
    g={}; exec(open(f).read(), g)
    subprocess.run("git checkout -q -- . && git clean -fdq", shell=True, cwd=R, check=True)
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=R, check=True)
    d=f"/verif/seeded/{g['ID']}"; os.makedirs(d,exist_ok=True)
    for s in ("demo.sh","common.rs"): shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), s), d)
    shutil.copy("/verif/driver/repo.Cargo.lock", d+"/Cargo.lock.in")
    open(d+"/demo.rs","w").write(g["DEMO"].lstrip("\n"))
    for (p,o,n) in g["EDITS"]:
        s=open(f"{R}/{p}").read(); assert s.count(o)==1,(f,p,s.count(o),o); open(f"{R}/{p}","w").write(s.replace(o,n))
    diff=subprocess.run(["git","diff"],cwd=R,capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":g["PROP"],"needs":g["NEEDS"],"what_it_breaks":g["BREAKS"]},open(d+"/meta.json","w"),indent=1)
    env=dict(os.environ,DEMO_TARGET="/tmp/seed/target")
    bad=subprocess.run(["bash",d+"/demo.sh"],cwd=R,env=env,capture_output=True,text=True)
    subprocess.run("git checkout -q -- .",shell=True,cwd=R)
    good=subprocess.run(["bash",d+"/demo.sh"],cwd=R,env=env,capture_output=True,text=True)
    ok = good.returncode==0 and bad.returncode not in ((0,) if g.get('COMPILE') else (0,2))
    print(g["ID"], "OK" if ok else "BAD", "good",good.returncode,"bad",bad.returncode)
    if not ok: print(good.stdout[-800:],good.stderr[-800:],"----",bad.stdout[-1500:],bad.stderr[-800:])
