#!/usr/bin/env python3
"""writes DESIGN.md: design_head.md, a section per property (scenarios from the harness sources), design_tail.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = json.load(open(os.path.join(V, "tools/design_props.json")))
out = open(os.path.join(V, "tools/design_head.md")).read()
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; h = H[i]
    out += "### %s %s\n\n%s\n\n" % (i, p["title"], h)
    src = open(os.path.join(V, "mc", i.lower() + ".cpp")).read()
    for m in re.finditer(r'mc::scenario\(\s*(?:std::string\()?(?:mc::strf\()?"([^"]*)"\)?[^,]*?,\s*(?:mc::strf\()?((?:"(?:[^"\\]|\\.)*"\s*)+)', src):
        t = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2)))
        out += "* `%s`: %s\n" % (m.group(1), t)
    out += "\n"
T = lambda f: os.path.join(V, "tools", f)
def cut(t, n=90):
    t = re.sub(r"[|`]", "/", t.strip()); t = re.sub(r"/tmp/\S*?/repo/", "", t)
    t = re.sub(r"==\d+==", "", t); t = re.sub(r"exit status 99 ", "", t)
    return t if len(t) <= n else t[:n] + "..."
D = json.load(open(T("detection.json"))); M = json.load(open(T("missed.json"))); U = json.load(open(T("unfix.json")))
detect = "%d planted, %d caught.\n\n| bug | needs | caught by | seconds |\n|---|---|---|---|\n" % (len(D), sum(1 for d in D.values() if d["caught"]))
for k in sorted(D):
    f = os.path.join(V, "seeded", k, "meta.json")
    if not os.path.exists(f): continue
    d = D[k]; need = json.load(open(f))["needs"]
    detect += "| %s | %s | %s | %d |\n" % (k, cut(need, 200), "`%s`" % d["by"].split(":")[0] if d["caught"] else "missed", d["s"])
missed = "".join("* %s: %s\n" % (k, M[k]) for k in sorted(M))
unfix = "| commit | check | reported | what failed |\n|---|---|---|---|\n"
for k, u in U.items(): unfix += "| %s | %s | %s | %s |\n" % (k, u["property"], "`%s` (%s)" % (u["by"].split(":")[0], u["how"]) if u["reported"] else "NO", cut(u["what"], 200))
Q = json.load(open(T("quiet.json")))
quiet = ""
import importlib.util
for f in sorted(os.listdir(T("refactors"))):
    if not f.endswith(".py"): continue
    n = f[:-3]; first = open(T("refactors/" + f)).readline().strip("# \n\"")
    quiet += "* `%s` (%s): %s\n" % (n, first, "not run" if n not in Q else "%s under %s" % ("ALARM " + str(Q[n]["bad"]) if Q[n]["bad"] else "quiet", "all checks" if len(Q[n]["checks"]) >= 29 else "C01 to C24" if len(Q[n]["checks"]) == 24 else " ".join(Q[n]["checks"])))
C = {}; S = []
for l in open(T("mutants.jsonl")):
    m = json.loads(l); r = m["r"]
    k = r if r in ("tests", "same", "no-compile", "SURVIVED") else "ERROR" if r.startswith("ERROR") else "check"
    C[k] = C.get(k, 0) + 1
    if k == "SURVIVED": S.append(m)
R = json.load(open(T("survivors.json")))
mut = "%d mutants that compile and pass the tests: %d reported by a check, %d not (%d more failed the tests or changed no code).\n\n" % (
    C.get("check", 0) + len(S), C.get("check", 0), len(S), C.get("tests", 0) + C.get("same", 0) + C.get("no-compile", 0))
for m in S:
    k = "%s:%d %s" % (m["file"], m["line"], m["new"])
    mut += "* `%s` line %d, `%s` -> `%s`: %s\n" % (m["file"], m["line"], m["old"], m["new"], R.get(k, "not looked at yet"))
tail = open(T("design_tail.md")).read()
for k, v in (("UNFIX", unfix), ("QUIET", quiet), ("MUTANTS", mut), ("MISSED", missed), ("DETECT", detect)): tail = tail.replace("@%s@\n" % k, v)
out += tail
open(os.path.join(V, "DESIGN.md"), "w").write(out)
