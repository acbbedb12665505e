#!/usr/bin/env python3
"""Which planted bugs change no line of the original repository (only ones that later commits added)?"""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
base = os.environ.get("BASE", "f120262")
old = {}
def originals(f):
    if f not in old:
        out = subprocess.check_output(["git", "-C", R, "blame", "-s", "--abbrev=12", "HEAD", "--", f], text=True)
        later = set(subprocess.check_output(["git", "-C", R, "rev-list", base + "..HEAD"], text=True).split())
        old[f] = [not any(c.startswith(l.split()[0].lstrip("^")[:12]) for c in later) for l in out.split("\n")[:-1]]
    return old[f]
for d in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    ok, n = False, 0
    for l in open(d):
        if l.startswith("--- a/"): o = originals(l[6:].strip())
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            t = l[1:].strip()
            ok = ok or (o[n] and t and not t.startswith("//") and t not in "{}")
            n += 1
        elif l.startswith(" "): n += 1
    if not ok: print("changes no original line:", os.path.basename(os.path.dirname(d)))
