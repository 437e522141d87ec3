"""which planted bugs change lines of the original repository (base commit), and which only lines our own commits added"""
import os, re, subprocess, sys
R = "/repo"
base = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
blame = {}
def lines(f):
    if f not in blame:
        out = subprocess.check_output(["git", "-C", R, "blame", "-s", "-l", "HEAD", "--", f], text=True).splitlines()
        blame[f] = [l.split()[0].lstrip("^")[:39] == base[:39] for l in out]
    return blame[f]
for i in sorted(os.listdir("/verif/seeded")):
    f, n, orig, ours, adds = None, 0, 0, 0, 0
    for l in open(f"/verif/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") : 
            if lines(f)[n - 1]: orig += 1
            else: ours += 1
            n += 1
        elif l.startswith("+"): adds += 1
        elif l.startswith(" "): n += 1
    if ours or not orig: print(i, "original lines removed", orig, "own", ours, "added", adds)
