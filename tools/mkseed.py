#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id> from a specification (id, property, needs, breaks, edits, files) and confirms it in a scratch clone.
The specification defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], M={path: text}, GEN=[paths]."""
import sys,os,subprocess,json,shutil,re
V="/verif"; S="/tmp/sd"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
TEST=open("/opt/vp/test.sh").read().replace("WORK=/opt/vp/work","WORK=/tmp/sdwork").replace("LOGS=/opt/vp/logs","LOGS=/tmp/sdlogs").replace("/repo/","/tmp/sd/").replace("/opt/vp/test.lock","/tmp/sd.lock")
open("/tmp/sdtest.sh","w").write(TEST)
def fresh():
    if not os.path.isdir(S): sh(f"git clone -q /repo {S}")
    sh(f"cd {S} && git fetch -q && git reset -q --hard origin/HEAD && git clean -qfdx")
base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else [])
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    d=f"{V}/seeded/{g['ID']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for x in ("gen.go.txt","demo.sh","go.mod.txt","go.sum.txt"): shutil.copy(f"{V}/tools/seed/{x}",d)
    os.chmod(d+"/demo.sh",0o755)
    for p,t in g["M"].items():
        os.makedirs(os.path.dirname(f"{d}/m/{p}"),exist_ok=True); open(f"{d}/m/{p}","w").write(t)
    open(d+"/files.txt","w").write("\n".join(g.get("GEN",["t/types.go"]))+"\n")
    json.dump({"property":g["PROP"],"needs":g["NEEDS"],"what_it_breaks":g["BREAKS"]},open(d+"/meta.json","w"),indent=1)
    fresh()
    r=sh(f"cd {S} && {d}/demo.sh")
    if r.returncode: print(g["ID"],"DEMO FAILS ON CLEAN",r.stdout[-2000:],r.stderr[-2000:]); continue
    ok=True
    for p,o,n in g["EDITS"]:
        t=open(f"{S}/{p}").read()
        if t.count(o)!=1: print(g["ID"],"EDIT",p,"matches",t.count(o)); ok=False; break
        open(f"{S}/{p}","w").write(t.replace(o,n))
    if not ok: continue
    open(d+"/patch.diff","w").write(sh(f"cd {S} && git diff").stdout)
    r=sh(f". /opt/vp/env.sh; cd {S} && go build ./... && cp -a {S} {S}2",executable="/bin/bash")
    if r.returncode: print(g["ID"],"DOES NOT BUILD",r.stderr[-1500:]); continue
    r=sh(f"cd {S} && {d}/demo.sh")
    print(g["ID"],"demo with the change:",r.returncode,(r.stdout+r.stderr).strip()[-300:])
    if r.returncode==0: continue
    shutil.rmtree(S+"2",ignore_errors=True)
    r=sh("bash /tmp/sdtest.sh /tmp/sdout.json")
    res=json.load(open("/tmp/sdout.json"))
    passed=len(res.get("passed",res.get("pass",[]))); 
    print(g["ID"],"tests passed:",passed)
    if passed<510: print(g["ID"],"TESTS FAIL",str(res)[-0:300], sh("grep -l FAIL /tmp/sdlogs/*").stdout); continue
    if os.environ.get("NOCHECK"): continue
    props=[g["PROP"]] + g.get("ALSO",[])
    for p in props:
        r=sh(f"timeout 890 /tmp/vjc -verif {V} -repo {S} -prop {p}")
        v=[l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(g["ID"],p,"exit",r.returncode,"violations",len(v),v[:1])
    sh(f"cd {S} && git checkout -q .")
