#!/usr/bin/env python3
"""mkseed.py id property pkg 'needs' 'breaks'  <edits on stdin: @@ file / old / ==== / new / ---- demo_test.go content>"""
import sys,os,re,subprocess,shutil,json
id,prop,pkg,needs,breaks=sys.argv[1:6]
txt=sys.stdin.read()
ed,demo=txt.split("\n----\n",1)
d="/tmp/seedwork"
shutil.rmtree(d,ignore_errors=True)
subprocess.check_call(["git","-C","/repo","worktree","prune"])
shutil.copytree("/repo",d,symlinks=True)
for part in re.split(r"(?m)^@@ ",ed)[1:]:
    f,rest=part.split("\n",1)
    old,new=rest.split("\n====\n",1)
    new=new.rstrip("\n")
    p=d+"/"+f.strip()
    s=open(p).read()
    root=subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],text=True).strip()[:39]
    bl=subprocess.check_output(["git","-C","/repo","blame","-l","-s",f.strip()],text=True).split("\n")
    ln=s[:s.find(old)].count("\n")
    newl=set(new.split("\n"))
    orig=sum(1 for k,l in enumerate(old.split("\n")) if l not in newl and bl[ln+k].lstrip("^").startswith(root))
    print("original lines changed:",orig)
    if s.count(old)!=1: sys.exit("NOAPPLY %s count=%d: %s"%(f,s.count(old),old.split("\n")[0]))
    open(p,"w").write(s.replace(old,new))
pass
patch=subprocess.check_output(["git","diff"],cwd=d,text=True)
out="/verif/seeded/"+id
os.makedirs(out,exist_ok=True)
open(out+"/patch.diff","w").write(patch)
open(out+"/demo_test.go","w").write(demo)
open(out+"/meta.json","w").write(json.dumps({"property":prop,"needs":needs,"what_it_breaks":breaks},indent=1)+"\n")
open(out+"/demo.sh","w").write('''#!/bin/sh
# exit 0: the property holds for this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestSeededDemo$' ./%s
''' % (pkg,pkg))
os.chmod(out+"/demo.sh",0o755)
env=dict(os.environ)
b=subprocess.run(["go","build","./..."],cwd=d,capture_output=True,text=True)
print("build",b.returncode,b.stderr[:500])
t=subprocess.run(["go","test","./..."],cwd=d,capture_output=True,text=True)
print("tests",t.returncode, "" if t.returncode==0 else t.stdout[-1500:])
a=subprocess.run([out+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
print("demo clean",a.returncode,"" if a.returncode==0 else (a.stdout+a.stderr)[-1500:])
m=subprocess.run([out+"/demo.sh"],cwd=d,capture_output=True,text=True)
print("demo patched",m.returncode,(m.stdout+m.stderr)[-700:])
c=subprocess.run(["/verif/bin/analyzer","-repo",d,"-out","/tmp/ev","-known","/verif/known_findings.txt","all"],capture_output=True,text=True)
print("checks",sorted(set(re.findall(r"VIOLATION property=(\w+)",c.stdout))))
print("\n".join(l[:300] for l in c.stdout.split("\n") if re.match(r"^\S+: \[",l))[:500])
shutil.rmtree(d)
