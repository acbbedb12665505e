#!/usr/bin/env python3
"""Which lines and branches of /repo do the checks run?  tools/coverage.py OUT.json [Cnn ...]

Runs the checks from a scratch copy, built with --coverage, and adds up what
gcov says.  Nothing here is part of a registered check."""
import collections, glob, gzip, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out, only = sys.argv[1], sys.argv[2:]
    base = tempfile.mkdtemp(prefix="nsasm-cov-")
    v = base + "/v"
    os.makedirs(v)
    for d in ("check.py", "harness", "shim", "KNOWN_FINDINGS.txt"):
        (shutil.copytree if os.path.isdir(V + "/" + d) else shutil.copy)(V + "/" + d, v + "/" + d)
    s = open(v + "/check.py").read()
    s = s.replace('"-O1"', '"-O0", "--coverage", "-fprofile-update=atomic"').replace("sanflag = [", 'sanflag = ["--coverage"] + [')
    s = s.replace('san = spec.get("sanitize", "")', 'san = ""').replace('if san else []', 'if san else ["--coverage"]').replace('sanflag = ["--coverage"] + ["-fsanitize=" + san]', 'sanflag = ["-fsanitize=" + san]')
    s = s.replace("shutil.rmtree(tmp, ignore_errors=True)", "shutil.rmtree(work, ignore_errors=True)")
    open(v + "/check.py", "w").write(s)
    p = v + "/harness/pbt.h"
    s = open(p).read()
    s = s.replace("_exit(0);", "(__gcov_dump(), _exit(0));")
    s = 'extern "C" void __gcov_dump(void);\n' + s
    open(p, "w").write(s)
    lines = collections.defaultdict(lambda: collections.defaultdict(int))
    branches = collections.defaultdict(lambda: collections.defaultdict(int))
    by = collections.defaultdict(set)
    sys.path.insert(0, V + "/harness")
    from checks import CHECKS
    for c in only or CHECKS:
        t = base + "/t"
        os.makedirs(t)
        env = dict(os.environ, TMPDIR=t)
        r = subprocess.run(["python3", "check.py", c, "--jobs", "4"], cwd=v, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        data = glob.glob(t + "/**/*.gcda", recursive=True)
        for g in data:
            q = subprocess.run(["gcov", "-j", "-t", "-b", os.path.basename(g)], cwd=os.path.dirname(g), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            for doc in q.stdout.decode(errors="replace").split("\n"):
                if not doc.startswith("{"): continue
                for f in json.loads(doc)["files"]:
                    n = f["file"]
                    if not n.startswith("/repo/"): continue
                    for l in f["lines"]:
                        lines[n][l["line_number"]] += l["count"]
                        if l["count"]: by[n].add(c)
                        for i, b in enumerate(l.get("branches", [])):
                            if not b.get("throw"): branches[n]["%d.%d" % (l["line_number"], i)] += b["count"]
        print(c, r.returncode, len(data), flush=True)
        if r.returncode: print(r.stdout[-1500:])
        shutil.rmtree(t)
        json.dump({"lines": lines, "branches": branches, "by": {k: sorted(x) for k, x in by.items()}}, open(out, "w"))
    shutil.rmtree(base)
    for n in sorted(lines):
        m = sorted(l for l, k in lines[n].items() if not k)
        print("%s: %d of %d lines; not run: %s" % (n, len(lines[n]) - len(m), len(lines[n]), m))


main()
