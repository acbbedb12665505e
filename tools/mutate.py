#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutate.py OUT.jsonl GROUP N [SEED]

Takes N random small edits of the sources of a group, and runs the group's
checks (in order, until one reports a violation) on scratch copies.  Uses
ccache, /tmp/mut, and copies of /repo and /verif; nothing here is part of a
registered check."""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYS = {
    "nsasm/address.h": "C01 C07 C08 C02 C03", "nsasm/location.h": "C10 C03", "nsasm/error.h": "C10 C03", "nsasm/error.cc": "C10",
    "nsasm/memory.h": "C12 C03 C05", "nsasm/memory.cc": "C12 C03", "nsasm/mnemonic.h": "C09", "nsasm/mnemonic.cc": "C09",
    "nsasm/numeric_type.h": "C13", "nsasm/ranges.h": "C07 C08", "nsasm/ranges.cc": "C07 C08", "nsasm/rom.h": "C02 C03 C04 C05 C06",
    "nsasm/rom.cc": "C02 C03 C04 C05 C06", "util/quick_dump.cc": "C11",
}
SHIM = {
    "nsasm/token.cc": "C19 C16 C34", "nsasm/token.h": "C19 C16 C34", "nsasm/expression.h": "C18 C20 C17 C22 C23 C31", "nsasm/expression.cc": "C18 C20",
    "nsasm/identifiers.h": "C23 C18 C22 C16", "nsasm/addressing_mode.cc": "C17 C20 C14 C16", "nsasm/addressing_mode.h": "C14 C17",
    "nsasm/opcode_map.cc": "C14", "nsasm/opcode_map.h": "C14", "nsasm/decode.cc": "C15 C29", "nsasm/parse.cc": "C16 C17 C18 C20 C32",
    "nsasm/instruction.cc": "C15 C20 C21 C30 C27 C25 C29 C31 C38 C37", "nsasm/instruction.h": "C16 C20", "nsasm/directive.cc": "C20 C21 C32 C25", "nsasm/directive.h": "C16 C20",
    "nsasm/statement.cc": "C21 C32 C20", "nsasm/statement.h": "C21 C32", "nsasm/execution_state.h": "C26 C37 C38 C25 C29", "nsasm/execution_state.cc": "C26 C25",
    "nsasm/calling_convention.h": "C25 C31 C20 C29", "nsasm/calling_convention.cc": "C20",
    "nsasm/module.cc": "C21 C23 C25 C32 C24 C31 C22 C34", "nsasm/module.h": "C21 C31", "nsasm/assembler.cc": "C23 C22 C31 C32 C24 C21", "nsasm/assembler.h": "C31 C24",
    "nsasm/disassemble.cc": "C29 C28", "nsasm/disassemble.h": "C29", "nsasm/file.cc": "C39 C33", "nsasm/file.h": "C39 C33 C21",
    "util/quick_assemble.cc": "C33", "util/quick_disassemble.cc": "C35", "util/disassemble_more.cc": "C35", "util/dumb_disassemble.cc": "C36",
    "util/print_opcode_map.cc": "C36", "util/interactive_parse.cc": "C36",
}
MUT = os.environ.get("MUTDIR", "/tmp/mut")
GROUPS = {"sys": SYS, "shim": SHIM}


def mutants_of(path):
    """[(line number, new text of the line)]"""
    out = []
    lines = open(os.path.join("/repo", path)).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "using", "namespace", "*", "}", "public", "private", "class", "template", "static_assert")):
            continue
        code = l.split("//")[0]
        if 'absl::PrintF' in code and 'debug' in path: continue
        spans = [(m.start(), m.end()) for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'', code)]
        inside = lambda p: any(a <= p < b for a, b in spans)

        def sub(pat, rep):
            for m in re.finditer(pat, code):
                if inside(m.start()): continue
                new = code[:m.start()] + (rep(m) if callable(rep) else m.expand(rep)) + code[m.end():]
                if new != code: out.append((i, new))
        for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" < ", " >= "), (" <= ", " < "), (" > ", " >= "), (" > ", " <= "), (" >= ", " > "), (r" \+ ", " - "), (" - ", " + "),
                     (" && ", " || "), (r" \|\| ", " && "), (r" \|= ", " &= "), (r" \+= ", " -= "), (r" \* ", " + "), (r" / ", " * "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & ")):
            sub(a, b)
        sub(r"!(?=[a-z(])", "")
        sub(r"\btrue\b", "false")
        sub(r"\bfalse\b", "true")
        sub(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", lambda m: str(int(m.group(1), 0) + 1))
        sub(r"(?<![\w.])(0x[0-9a-fA-F]+|[1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1), 0) - 1))
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\) \{$", code)
        if m:
            out.append((i, code.replace("if (", "if (false && (", 1)[:-3] + ")) {"))
            out.append((i, code.replace("if (", "if (true || (", 1)[:-3] + ")) {"))
        if re.match(r"^\s+(?!return|break|continue|auto |const |int |bool |case |default|std::\w+[<& ]\S* \w+( =|;)|absl::\S+ \w+).*;$", code) and code.count("(") == code.count(")") and lines[i - 1].strip().endswith((";", "{", "}", ":")):
            out.append((i, re.match(r"^\s*", code).group() + ";"))
        if re.match(r"^\s+(continue|break);$", code): out.append((i, re.match(r"^\s*", code).group() + ";"))
        m = re.match(r"^(\s+case )(\w+):", code)
        if m: out.append((i, code.replace("case " + m.group(2) + ":", "", 1) if "default" not in code else code))
        # an adjacent enumerator or name
        for a, b in (("M_adc", "M_sbc"), ("A_imm_fm", "A_imm_fx"), ("A_imm_fx", "A_imm_fm"), ("T_byte", "T_word"), ("T_word", "T_long"), ("T_long", "T_word"), ("B_off", "B_on"), ("B_on", "B_off"), ("B_unknown", "B_on"), ("S_b", "S_w"), ("kLoRom", "kHiRom"), ("kHiRom", "kLoRom")):
            sub(r"\b%s\b" % a, b)
    return [(path, i, lines[i], new) for i, new in dict.fromkeys(out) if new.strip() != lines[i].strip()]


free = []
lock = threading.Lock()
outf = None


def run_limited(argv, cwd, env, timeout=1500):
    """subprocess.run, but ends the whole process group and limits the size of a file."""
    lim = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    with subprocess.Popen(argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, preexec_fn=lim) as p:
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise
        return subprocess.CompletedProcess(argv, p.returncode, out)


def worker(mut, checks):
    with lock: w = free.pop()
    try:
        path, i, old, new = mut
        base = MUT + "/w%d" % w
        f = os.path.join(base, "r", path)
        text = open("/repo/" + path).read()
        ls = text.split("\n")
        ls[i] = new
        open(f, "w").write("\n".join(ls))
        env = dict(os.environ, NSASM_REPO=base + "/r", NSASM_CXX_PREFIX="ccache", CCACHE_DIR="/tmp/mut/ccache", CCACHE_BASEDIR=base, CCACHE_NOHASHDIR="1", PBT_NOSHRINK="1", CCACHE_MAXSIZE="20G",
                   CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime", TMPDIR=base + "/t")
        res, t0, tail = "SURVIVED", time.time(), ""
        for c in checks:
            try:
                r = run_limited(["python3", "v/check.py", c, "--jobs", "2"], base, env)
            except subprocess.TimeoutExpired:
                res = "TIMEOUT " + c
                break
            if r.returncode == 2 and ("BUILD FAILED" in r.stdout or "LINK FAILED" in r.stdout): res = "NOBUILD"; break
            if r.returncode != 0:
                res = "caught %s" % c if r.returncode == 1 else "EXIT %d %s" % (r.returncode, c)
                tail = "\n".join(x[:200] for x in r.stdout.split("\n") if x.startswith("FAILURE"))[:300]
                break
        open(f, "w").write(text)
        with lock:
            outf.write(json.dumps(dict(path=path, line=i + 1, old=old.strip(), new=new.strip(), result=res, why=tail, secs=round(time.time() - t0))) + "\n")
            outf.flush()
    finally:
        with lock: free.append(w)


def main():
    global outf
    out, group, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    W = int(os.environ.get("WORKERS", "4"))
    g = GROUPS[group]
    muts = []
    for p in g:
        if only and p not in only: continue
        muts += mutants_of(p)
    print(len(muts), "possible")
    rnd.shuffle(muts)
    muts = muts[:n]
    for w in range(W):
        b = MUT + "/w%d" % w
        subprocess.run(["rm", "-rf", b])
        os.makedirs(b + "/t")
        subprocess.run("git clone -q /repo %s/r && mkdir %s/v && cp -a %s/check.py %s/harness %s/shim %s/KNOWN_FINDINGS.txt %s/v/" % (b, b, V, V, V, V, b), shell=True, check=True)
        free.append(w)
    outf = open(out, "a")
    with cf.ThreadPoolExecutor(W) as ex:
        for f in [ex.submit(worker, m, g[m[0]].split()) for m in muts]: f.result()


main()
