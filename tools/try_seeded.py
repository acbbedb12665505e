#!/usr/bin/env python3
"""try_seeded.py [--stable] [ids...]: apply each planted change in seeded/ to a
scratch copy of /repo and run the check of its property there.  With --stable,
also build /repo itself with it and run its tests (applied and undone again)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


args = sys.argv[1:]
stable = "--stable" in args
ids = [a for a in args if a[0] != "-"] or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    out = []
    if stable:
        assert sh("git -C /repo status --porcelain").stdout == ""
        assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seeded-test.json")
            passed = sum(x.get("status", x) in ("passed", "pass", True) if isinstance(x, dict) else 0 for x in []) if 0 else t.stdout.strip().split("\n")[-1]
            out.append("build %d, tests: %s" % (b.returncode, passed))
        finally:
            sh("git -C /repo checkout -- .")
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        sh("git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff" % (tmp, tmp, d))
        r = sh("cd %s && NSASM_REPO=%s/r python3 check.py %s" % (V, tmp, prop))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        out.append("%s %s" % (prop, "CAUGHT" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode))
        if r.returncode == 2: out.append(r.stdout[-500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(i, "; ".join(out), flush=True)
