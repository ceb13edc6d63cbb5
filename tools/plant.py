"""plant(id, prop, needs, breaks, edits, demo): makes /verif/seeded/<id>/ after confirming in a scratch copy."""
import os, shutil, subprocess, json, sys
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
BLAME={}
ORIG=subprocess.check_output("git -C /repo log --reverse --format=%H | head -1",shell=True).decode().strip()
def plant(id, prop, needs, breaks, edits, demo, force=False):
    d="/tmp/plant_scratch"
    if os.path.exists(d): shutil.rmtree("/tmp/plant_scratch")
    shutil.copytree("/repo", d, symlinks=True)
    for f, old, new in edits:
        p=os.path.join(d,"histbook",f); s=open(p).read()
        if s.count(old)!=1: print(id,"COUNT",s.count(old),repr(old[:60])); return False
        open(p,"w").write(s.replace(old,new))
    diff=subprocess.check_output(["git","-C",d,"diff"])
    # removed lines must be original
    n=0
    for f in sorted(set(e[0] for e in edits)):
        bl=subprocess.check_output(["git","-C","/repo","blame","-s","-l","HEAD","--","histbook/"+f]).decode(errors="replace").splitlines()
        dd=subprocess.check_output(["git","-C",d,"diff","-U0","--","histbook/"+f]).decode(errors="replace").splitlines()
        ln=None
        for l in dd:
            if l.startswith("@@"):
                a=l.split()[1][1:].split(","); ln=int(a[0])
            elif l.startswith("-") and not l.startswith("---"):
                b=bl[ln-1]; ln+=1
                if b.lstrip("^").startswith(ORIG[:30]): n+=1
                else: print(id,"NOT ORIGINAL:",b[41:120])
    if n==0: print(id,"no original lines changed (only additions?)")
    sd="/verif/seeded/"+id
    if os.path.exists(sd): shutil.rmtree(sd)
    os.makedirs(sd)
    open(sd+"/patch.diff","wb").write(diff)
    open(sd+"/demo.py","w").write(demo)
    open(sd+"/demo.sh","w").write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv-pypy/bin/python "$here/demo.py"\n')
    os.chmod(sd+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(sd+"/meta.json","w"),indent=1)
    a=sh("cd /repo && bash %s/demo.sh"%sd); b=sh("cd %s && bash %s/demo.sh"%(d,sd))
    t=sh("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv-pypy/bin/python -m pytest -q tests -p no:cacheprovider"%(d,d))
    tail=t.stdout.decode().strip().splitlines()[-1]
    ok=a.returncode==0 and b.returncode!=0 and " failed" not in tail and "passed" in tail
    print(id,prop,"OK" if ok else "BAD", "clean",a.returncode,"patched",b.returncode,tail, b.stdout.decode().strip().splitlines()[-1:])
    if a.returncode: print(a.stdout.decode()[-800:])
    if not ok: 
        if "failed" in tail: print(t.stdout.decode()[-600:])
        shutil.rmtree(sd)
    shutil.rmtree("/tmp/plant_scratch")
    return ok
