#!/usr/bin/env python3
"""Build and run the check of one property (see DESIGN.md).

  check.py C07                 quick or thorough tier, from VERIF_TIER
  check.py C07 --thorough      thorough tier
  check.py C07 --replay FILE   re-run one saved failing case
  check.py --list

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), NSASM_REPO
(default /repo; only for developing the checks against scratch copies).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NSASM_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
from checks import CHECKS, ALL_SOURCES  # noqa: E402


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(spec, tmp):
    """Compile the harness and the repository sources it needs into tmp."""
    flags = ["-std=c++20", "-g1", "-O1", "-D_GLIBCXX_ASSERTIONS", "-iquote", REPO,
             "-I", os.path.join(HERE, "harness"), "-Wno-attributes",
             "-fno-omit-frame-pointer"]
    san = spec.get("sanitize", "")
    if san:
        flags += ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
    libs = []
    cxx = spec.get("cxx", "g++")
    prefix = os.environ.get("NSASM_CXX_PREFIX", "").split()  # ccache, for tools/mutate.py
    if spec["absl"] == "system":
        libs = run(["pkg-config", "--libs", "absl_str_format", "absl_flat_hash_map", "absl_strings",
                    "absl_optional", "absl_variant", "absl_inlined_vector", "absl_flat_hash_set"]).stdout.split()
    else:
        flags += ["-I", os.path.join(HERE, "shim")]
    flags += spec.get("flags", [])
    jobs = []
    objs = []
    optional = set()  # sources added to the repository later: used if they compile
    sources = list(spec["sources"])
    for path in sorted(glob.glob(os.path.join(REPO, "nsasm", "*.cc"))):
        name = "nsasm/" + os.path.basename(path)
        if name not in ALL_SOURCES and not name.endswith("_test.cc"):
            sources.append(name)
            optional.add(path)
    for i, src in enumerate([os.path.join(HERE, "harness", h) for h in spec["harness"]] +
                            [os.path.join(REPO, s) for s in sources]):
        o = os.path.join(tmp, "%d_%s.o" % (i, os.path.basename(src)))
        objs.append(o)
        extra = spec.get("per_file", {}).get(os.path.basename(src), [])
        jobs.append(prefix + [cxx] + flags + extra + ["-c", src, "-o", o])
    # a command-line tool of the repository, built as a separate program
    tools = {}
    for name, srcs in spec.get("tools", {}).items():
        tobjs = []
        for s in srcs:
            src = os.path.join(REPO, s)
            o = os.path.join(tmp, "tool_%s_%s.o" % (name, os.path.basename(src)))
            tobjs.append(o)
            jobs.append(prefix + [cxx] + flags + ["-c", src, "-o", o])
        tools[name] = tobjs
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode and cmd[-3] in optional:
                objs.remove(cmd[-1])
            elif r.returncode:
                print("BUILD FAILED:", " ".join(cmd))
                print(r.stdout[-4000:])
                sys.exit(2)
    sanflag = ["-fsanitize=" + san] if san else []
    links = [([cxx] + sanflag + spec.get("link", []) + objs + libs + ["-o", os.path.join(tmp, "harness"), "-lpthread"])]
    for name, tobjs in tools.items():
        shared = [o for o in objs if not os.path.basename(o).split("_")[0] == "0"] if spec.get("tools_share") else []
        links.append([cxx] + sanflag + tobjs + shared + libs + ["-o", os.path.join(tmp, name), "-lpthread"])
    with cf.ThreadPoolExecutor(8) as ex:
        for cmd, r in zip(links, ex.map(run, links)):
            if r.returncode:
                print("LINK FAILED:", " ".join(cmd))
                print(r.stdout[-4000:])
                sys.exit(2)
    return os.path.join(tmp, "harness")


def known_findings(pid):
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):])
    return out


def main():
    args = sys.argv[1:]
    if not args or args[0] == "--list":
        for k in CHECKS:
            print(k, CHECKS[k]["title"])
        return 0
    pid = args[0]
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        args.remove("--thorough")
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    tmp = tempfile.mkdtemp(prefix="nsasm-verif-")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:abort_on_error=1:allocator_may_return_null=0:hard_rss_limit_mb=3000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    env["VERIF_BIN_DIR"] = tmp
    env["VERIF_REPO"] = REPO
    try:
        harness = build(spec, tmp)
        evidence = os.path.join(HERE, "evidence", pid + ".json")
        os.makedirs(os.path.dirname(evidence), exist_ok=True)
        replays = os.path.join(HERE, "replays")
        os.makedirs(replays, exist_ok=True)
        work = os.path.join(tmp, "work")
        os.makedirs(work)
        cmd = [harness, "--seed", str(seed), "--tier", tier, "--tmp", work]
        if "--replay" in args:
            cmd += ["--replay", os.path.abspath(args[args.index("--replay") + 1])]
        else:
            cmd += ["--evidence", evidence + ".tmp", "--replay-out", os.path.join(replays, "%s-seed%d.txt" % (pid, seed))]
            cmd += args[1:]
        if spec.get("sanitize") == "thread" and run(["setarch", "-R", "true"]).returncode == 0:
            cmd = ["setarch", "-R"] + cmd
        r = subprocess.run(cmd, env=env, cwd=work)
        rc = r.returncode
        if "--replay" not in args and os.path.exists(evidence + ".tmp"):
            ev = json.load(open(evidence + ".tmp"))
            ev["assumptions"] = spec.get("assumptions", [])
            json.dump(ev, open(evidence, "w"), indent=1)
            os.remove(evidence + ".tmp")
        for line in known_findings(pid):
            print("KNOWN-FINDING: " + line)
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
