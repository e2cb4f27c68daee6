#!/usr/bin/env python3
"""Mutation analysis: small changes of the library (operators, constants, deleted statements ...) that
compile, pass the repository's tests and change the code generated; which check sees each of them?
Works in copies under /tmp; appends to tools/mutants.jsonl (survivors are then looked at by hand).
usage: mutants.py SEED COUNT [FILE-SUBSTRING]"""
import sys, os, re, json, subprocess, shutil, random, glob, hashlib, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, count = int(sys.argv[1]), int(sys.argv[2])
only = sys.argv[3] if len(sys.argv) > 3 else ""
PAR = int(os.environ.get("PAR", "3"))
OUT = os.path.join(VERIF, "tools", "mutants.jsonl")
W = "/tmp/mcmut.%d" % os.getpid()
ORDER = {
 "sml_transport": "C12 C11 C13 C14 C15", "sml_crc16": "C10 C04", "sml_octet_string": "C20 C24 C23 C02 C07 C01 C16",
 "sml_number": "C09 C24 C02 C07 C01", "sml_value": "C19 C09 C24 C02 C07 C08 C16 C01", "sml_list": "C17 C22 C02 C03 C07 C08 C16 C01",
 "sml_file": "C22 C05 C04 C02 C07 C16 C21", "sml_message": "C04 C03 C05 C23 C02 C07 C08 C16 C01",
 "sml_tree": "C22 C24 C03 C02 C07 C16 C01 C08", "sml_shared": "C06 C24 C09 C14 C03 C02 C07 C01",
}
DEF = "C03 C02 C07 C24 C16 C01 C08 C05"
REST = "C14 C15 C05 C04 C22 C16 C08 C03 C01 C02 C07 C12 C13 C21 C18"
def mutate(path):
    src = open(path).read()
    lines = src.split("\n")
    muts = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or i < 18: continue
        code = l.split("//")[0]
        def sub(a, b, new, what):
            muts.append((i, code[:a] + new + code[b:], what))
        if re.search(r'^\s*0x[0-9a-f]{4},', code): # checksum table
            if random.random() > .03: continue
        for m in re.finditer(r"(?<![<>=!+\-*/&|^%])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if "->" in code[m.start() - 1:m.end()] or "#include" in code: continue
            op = m.group(1)
            for n in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[op]:
                sub(m.start(), m.end(), n, op + " -> " + n)
        for m in re.finditer(r"&&|\|\|", code): sub(m.start(), m.end(), "||" if m.group() == "&&" else "&&", m.group())
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)\b", code):
            v = int(m.group(1), 0)
            sub(m.start(), m.end(), str(v + 1), "const +1")
            if v: sub(m.start(), m.end(), str(v - 1), "const -1")
        for m in re.finditer(r" (\+|-|&|\||<<|>>|\*|%|/) ", code):
            op = m.group(1)
            n = {"+": "-", "-": "+", "&": "|", "|": "&", "<<": ">>", ">>": "<<", "*": "+", "%": "/", "/": "*"}[op]
            sub(m.start(1), m.end(1), n, op + " -> " + n)
        for m in re.finditer(r"\+\+|--", code): sub(m.start(), m.end(), "--" if m.group() == "++" else "++", m.group())
        if re.search(r"^\s*[\w>\-.*()\[\] +&]+(=|\().*;\s*$", code) and not re.search(r"^\s*(return|u?int|char|unsigned|size_t|ssize_t|u8|u16|void|sml_\w+ \*|octet_string \*|const|static)\b", code.strip()) and "goto" not in code:
            muts.append((i, re.sub(r"\S.*", ";", code, 1), "deleted"))
        if s in ("goto error;", "return;", "return NULL;", "continue;") or re.match(r"break;", s): muts.append((i, code.replace(s, ";"), "deleted"))
        for m in re.finditer(r"\bif \((.*)\)", code):
            sub(m.start(1), m.end(1), "!(" + m.group(1) + ")", "negated")
        for m in re.finditer(r"SML_TYPE_NUMBER_(\d+)", code): sub(m.start(1), m.end(1), {"8": "16", "16": "8", "32": "64", "64": "32"}[m.group(1)], "width")
        for m in re.finditer(r"SML_TYPE_(OCTET_STRING|BOOLEAN|INTEGER|UNSIGNED|LIST)\b", code):
            sub(m.start(1), m.end(1), random.choice([x for x in ["OCTET_STRING", "BOOLEAN", "INTEGER", "UNSIGNED", "LIST"] if x != m.group(1)]), "type")
        for m in re.finditer(r"\b(true|false)\b", code): sub(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
        for m in re.finditer(r"sml_(u8|u16|u32|u64|i8|i16|i32|i64|unit)_(parse|write)", code):
            sub(m.start(1), m.end(1), random.choice([x for x in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] if x != m.group(1)]), "element type")
    return [(path, i, lines[i], n, w) for i, n, w in muts]
random.seed(seed)
allm = []
for f in sorted(glob.glob("/repo/sml/src/*.c")):
    if only in os.path.basename(f): allm += mutate(f)
random.shuffle(allm)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
print(len(allm), "mutants possible")
os.makedirs(W)
q = queue.Queue()
n = 0
for p, i, old, new, w in allm:
    k = (os.path.basename(p), i + 1, new.strip())
    if k in done: continue
    done.add(k)
    q.put((p, i, old, new, w)); n += 1
    if n >= count: break
lock = threading.Lock()
def sh(c, cwd, t):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: return 124, ""
def objsum(d, f):
    rc, o = sh("gcc -std=gnu99 -O2 -w -Iinclude/ -Iinclude -S -o - src/%s | grep -v '\\.file'" % f, d + "/repo/sml", 60)
    return hashlib.sha256(o.encode()).hexdigest() if rc == 0 else None
def work(k):
    d = "%s/%d" % (W, k)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "build"))
    base = {}
    while True:
        try: p, i, old, new, w = q.get_nowait()
        except queue.Empty: return
        f = os.path.basename(p)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        if f not in base: base[f] = objsum(d, f)
        fp = d + "/repo/sml/src/" + f
        ls = open(fp).read().split("\n"); ls[i] = new; open(fp, "w").write("\n".join(ls))
        o = objsum(d, f)
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), op=w)
        if o is None or o == base[f]: rec["r"] = "same" if o else "no-compile"
        else:
            rc, out = sh("(make -s -C sml && make -s -C test test) >/dev/null 2>&1 || exit 9; cd test && ulimit -v 8000000; timeout 20 ./test", d + "/repo", 200)
            m = re.search(r"(\d+) Tests (\d+) Failures", out)
            if rc or not m or m.group(2) != "0": rec["r"] = "tests"
            else:
                order = ORDER.get(f[:-2], DEF).split()
                order += [x for x in REST.split() if x not in order]
                rec["r"] = "SURVIVED"; t0 = time.time(); rec["checks"] = []
                for c in order:
                    r = subprocess.run(["python3", d + "/verif/run.py", c], env=dict(os.environ, MC_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    o2 = r.stdout.decode("utf-8", "replace")
                    if r.returncode == 1 and "VIOLATION property=" + c in o2:
                        rec["r"] = c; break
                    if r.returncode: rec["r"] = "ERROR " + c; rec["out"] = o2[-500:]; break
                    rec["checks"].append(c)
                rec["s"] = round(time.time() - t0)
                shutil.rmtree(d + "/verif/build", ignore_errors=True) if random.random() < .1 else None
        sh("git clean -fdqx", d + "/repo", 60)
        with lock:
            open(OUT, "a").write(json.dumps(rec) + "\n")
            if rec["r"] not in ("same", "no-compile", "tests"): print(rec["r"], rec.get("s"), f, i + 1, w, "|", rec["old"], "=>", rec["new"], flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(PAR)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W)
