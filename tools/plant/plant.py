#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: build seeded/<id> from specs, verifying in a scratch copy."""
import sys, os, subprocess, shutil, json, tempfile, concurrent.futures as cf
spec = {}
exec(open(sys.argv[1]).read(), spec)
BUGS = spec["BUGS"]
want = sys.argv[2:]
SEEDED = "/verif/seeded"
SYS_SH = '''#!/bin/bash
# Builds a small program from the repository's sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
libs=$(pkg-config --libs absl_str_format absl_flat_hash_map absl_strings absl_optional absl_variant absl_inlined_vector absl_flat_hash_set)
g++ -std=c++20 -w -iquote . "$here/demo.cc" %(src)s $libs -o "$t/demo" || exit 2
cd "$t" && ./demo
'''
SHIM_SH = '''#!/bin/bash
# Builds a small program from the repository's sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
pids=()
for f in "$here/demo.cc" %(src)s; do
  g++ -std=c++20 -w -iquote . -I "$here/shim" -I "$here" -c "$f" -o "$t/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 2; done
g++ "$t"/*.o -o "$t/demo" || exit 2
cd "$t" && ./demo
'''
HELP = open("/tmp/plant/asmdemo.h").read()
ALL = "error mnemonic execution_state calling_convention token expression addressing_mode opcode_map instruction directive statement parse memory decode ranges file module assembler disassemble rom".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(b):
    d = os.path.join(SEEDED, b["id"])
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        clean, bad = tmp + "/clean", tmp + "/bad"
        for x in (clean, bad):
            r = sh("git -C /repo worktree list >/dev/null; git clone -q /repo %s" % x)
        for f, old, new in b["edits"]:
            p = os.path.join(bad, f)
            s = open(p).read()
            if s.count(old) != 1: return b["id"], "edit matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % bad).stdout
        open(d + "/patch.diff", "w").write(diff)
        kind = b.get("kind", "shim")
        open(d + "/demo.cc", "w").write(b["demo"])
        src = " ".join(("nsasm/%s.cc" % s if "/" not in s else s) for s in b.get("src", ALL))
        if kind == "sys":
            open(d + "/demo.sh", "w").write(SYS_SH % dict(src=src))
        elif kind == "sh":
            open(d + "/demo.sh", "w").write(b["sh"])
            os.remove(d + "/demo.cc")
        else:
            open(d + "/demo.sh", "w").write(SHIM_SH % dict(src=src))
            shutil.copytree("/verif/shim", d + "/shim")
            open(d + "/asmdemo.h", "w").write(HELP)
        if b.get("with_shim") and not os.path.exists(d + "/shim"): shutil.copytree("/verif/shim", d + "/shim")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, cwd=clean)
        if r1.returncode: return b["id"], "demo fails on clean tree (%d): %s" % (r1.returncode, r1.stdout[-1500:])
        r2 = sh("bash %s/demo.sh" % d, cwd=bad)
        if r2.returncode == 0: return b["id"], "demo passes with the patch"
        if r2.returncode == 2: return b["id"], "demo does not build with the patch: " + r2.stdout[-1500:]
        return b["id"], "ok (demo: %d %s)" % (r2.returncode, r2.stdout.strip().replace("\n", " | ")[-150:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

todo = [b for b in BUGS if not want or b["id"] in want]
with cf.ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(one, todo):
        print(i, r, flush=True)
