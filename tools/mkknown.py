#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: one 'fixed:' line per repair commit of /repo."""
import subprocess, sys
BASE = "7bebf4d"
MAP = """d74ebb1 C03
19490c2 C03
e487588 C01
b0d4ffb C01
897f07b C02
bcdbdca C02
a2c9d97 C04
d92ee37 C04
09ede04 C04
287f8b5 C07
6e8691a C07
52c3927 C07
a93259d C07
d057205 C16
a6319a9 C16
ae11587 C16
6f909ff C19
0c62f99 C17
ba531ad C19
bb7fc4c C19
8f6ade9 C20
e329ea3 C20
5bbe9d6 C20
f1036fb C20
e64cacf C20
a3616aa C20
2b1b4ac C13
b1a94a3 C13
b767a51 C13
87dd511 C13
eafc87d C14
58b0b39 C14
9b58b48 C14
af5ce80 C14
c4d384a C14
502c36f C14
a3873a9 C14
2cbf959 C13
309de87 C06
48d7446 C06
cbf8a3d C09
cc145a5 C09
782b94d C09
5ae5d53 C09
06d94e7 C09
5702151 C09
c416d52 C09
eef4857 C12
a3d809b C12
6065e31 C12
f32ac88 C12
5f82805 C10
189d444 C11
4245cac C11
8c61327 C11
79d3cde C08
87adf27 C08
4c600d4 C08
95e2a7e C25
626811e C25
0b3f5b9 C25
45f1481 C25
fa924ee C18
8cf5549 C14
f8a942b C14
7dffbe1 C24
8cde729 C23
b74855a C23
9a4ca54 C23
82fa78f C23
15b6268 C24
f44ea5b C27
13adb98 C27
059def8 C27
8b9bd99 C27
2dc1f12 C27
f12aec1 C27
44821be C27
18654e6 C08
98b0a69 C23
8fed007 C21
0e7f796 C21
051a895 C22
83232db C22
55f2001 C22
9e49bd7 C21
054340a C04
24056cd C20"""
m = dict(l.split() for l in MAP.splitlines())
extra = sys.argv[1:]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %H %s", BASE + "..HEAD"],
                     capture_output=True, text=True, check=True).stdout
lines = ["# Findings in alignof/carron. 'fixed:' lines are repaired in /repo and suppress nothing.",
         "# 'known: property=<id> sig=<signature>' lines would be defects recorded rather than repaired: there are none."]
for l in out.splitlines():
    h, full, s = l.split(" ", 2)
    if not s.startswith("fix:"):
        continue
    assert h in m, (h, s)
    lines.append(f"fixed: property={m[h]} {full} before the repair this did not hold: {s[5:]}")
open("/verif/known_findings.txt", "w").write("\n".join(lines) + "\n")
