#!/usr/bin/env python3
"""Runs the analyzer on mutated copies of /repo (development aid, not used by any check).

usage: run.py [substring of mutant name ...]
Mutants live in mutants.txt: blocks
  == name : expected ids (comma separated, '-' for a behaviour-preserving edit)
  @@ file
  old text
  ====
  new text
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
muts = []
import glob
for fn in sorted(glob.glob(os.path.join(here, "*.txt"))):
    src = os.path.basename(fn)[:-4]
    for block in re.split(r"(?m)^== ", open(fn).read())[1:]:
        head, body = block.split("\n", 1)
        name, exp = [x.strip() for x in head.rsplit(":", 1)]
        edits = []
        for part in re.split(r"(?m)^@@ ", body)[1:]:
            f, rest = part.split("\n", 1)
            old, new = rest.split("\n====\n", 1) if "\n====\n" in rest else rest.split("====\n", 1)
            edits.append((f.strip(), old, new.rstrip("\n")))
        muts.append((name, exp, edits, src))
sel = sys.argv[1:]
test = os.environ.get("TEST") == "1"
def one(m):
    name, exp, edits, _ = m
    d = tempfile.mkdtemp(prefix="mut")
    out = ""
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) < 1:
                return (name, exp, "NOAPPLY " + f + ": " + old.split("\n")[0])
            s = s.replace(old, new, 1)
            open(r + "/" + f, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=r, capture_output=True, text=True)
        if b.returncode:
            return (name, exp, "NOBUILD " + b.stderr[:300])
        if test:
            t = subprocess.run(["go", "test", "-timeout", "60s", "./..."], cwd=r, capture_output=True, text=True)
            if t.returncode:
                out = " [TESTS FAIL]"
        p = subprocess.run([os.environ.get("ANALYZER", here + "/../bin/analyzer"), "-repo", r, "-out", d + "/ev", "-known", here + "/../known_findings.txt"] + (exp.split(",") if os.environ.get("EXP") and exp != "-" else os.environ.get("ONLY", "all").split()), capture_output=True, text=True)
        ids = sorted(set(re.findall(r"VIOLATION property=(\w+)", p.stdout)))
        det = ""
        if os.environ.get("V"):
            det = "\n" + "\n".join("     " + l for l in p.stdout.split("\n") if re.match(r"^\S+: \[", l))
        if p.returncode not in (0, 1):
            det += "\n" + p.stderr
            ids.append("CRASH")
        ok = (exp == "-" and not ids) or (exp != "-" and all(e in ids for e in exp.split(",")))
        return (name, exp, ("ok  " if ok else "FAIL") + " got " + ",".join(ids) + out + det)
    finally:
        shutil.rmtree(d)
ms = [m for m in muts if not sel or any(s in m[0] or s in m[1].split(",") or s == m[3] for s in sel)]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for name, exp, res in ex.map(one, ms):
        if not res.startswith("ok"): bad += 1
        if not res.startswith("ok") or os.environ.get("V"): print(f"{name} (expected {exp}): {res}")
print(len(ms), "mutants,", bad, "unexpected")
