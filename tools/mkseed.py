#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' < spec: writes seeded/ID/{patch.diff,meta.json} from edits.
spec: blocks 'FILE path', '<<<', old, '===', new, '>>>'; demo files are written separately."""
import sys, json, subprocess, os, shutil
id, prop, needs, breaks = sys.argv[1:5]
R = "/tmp/seedrepo"
if not os.path.isdir(R): subprocess.run(["cp", "-a", "/repo", R], check=True)
g = lambda *a: subprocess.run(["git", "-C", R, *a], check=True, capture_output=True, text=True).stdout
g("checkout", "-q", "--", "."); g("fetch", "-q", "/repo", "HEAD"); g("reset", "-q", "--hard", "FETCH_HEAD")
path = None; lines = sys.stdin.read().split("\n"); i = 0
while i < len(lines):
    l = lines[i]
    if l.startswith("FILE "): path = os.path.join(R, l[5:].strip())
    elif l == "<<<":
        j = lines.index("===", i); k = lines.index(">>>", j)
        old = "\n".join(lines[i+1:j]) + "\n"; new = "\n".join(lines[j+1:k]); new += "\n" if new else ""
        s = open(path).read(); assert s.count(old) == 1, (path, s.count(old), old)
        open(path, "w").write(s.replace(old, new)); i = k
    i += 1
D = f"/verif/seeded/{id}"; os.makedirs(D, exist_ok=True)
d = g("diff"); assert d
open(D + "/patch.diff", "w").write(d)
# at least one original line has to change
base = "7bebf4d"; ok = False
for f in g("diff", "--name-only").split():
    blame = g("blame", "-s", "-l", "HEAD", "--", f).split("\n")
    for h in subprocess.run(["git","-C",R,"diff","-U0","--",f],capture_output=True,text=True).stdout.split("\n"):
        if h.startswith("@@"):
            a = h.split()[1][1:].split(","); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
            for x in range(st, st + n):
                if blame[x-1].startswith("^"): ok = True
                else: print("not original:", f, x, blame[x-1][-60:])
assert ok or "-f" in sys.argv, "no original line changed"
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
g("checkout", "-q", "--", ".")
for f in ("rv.sh", "rv.inc", "link.ld"): shutil.copy("/verif/tools/seedlib/" + f, D)
