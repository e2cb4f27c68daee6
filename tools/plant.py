#!/usr/bin/env python3
"""Makes /verif/seeded from tools/seeds/*.py: confirms each planted bug in a scratch copy of /repo
(applies, builds, passes the tests, demonstration passes without it and fails with it).
usage: plant.py [ID...]   (all that are not there yet, or the named ones again)"""
import sys, os, re, subprocess, shutil, json, tempfile, glob, importlib.util, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
S = os.path.join(HERE, "seeds")
BASE = "8032253"
seeds = []
def seed(id, edits, demo, needs, breaks, flags="-fsanitize=address"):
    prop = id.split("-")[0]
    if isinstance(edits, tuple): edits = [edits]
    seeds.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
for f in sorted(glob.glob(S + "/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
assert len({s["id"] for s in seeds}) == len(seeds), "ids"

def sh(cmd, cwd, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def tests(d):
    rc, o = sh("make -s -j4 -C sml CC=gcc && make -s -j4 -C examples CC=gcc && make -s -j4 -C test test CC=gcc && cd test && timeout 120 ./test -v", d)
    m = re.search(r"^(\d+) Tests (\d+) Failures (\d+) Ignored", o, re.M)
    return rc == 0 and m and m.group(2) == "0" and int(m.group(1)) >= 88, o[-2000:]

def blame(d, f):
    o = subprocess.run(["git", "blame", "-s", "--line-porcelain", "HEAD", "--", f], cwd=d, stdout=subprocess.PIPE, text=True).stdout
    return [l.split()[0] for l in o.split("\n") if re.match(r"^[0-9a-f^]{40} \d+ \d+", l)]

def one(s):
    top = tempfile.mkdtemp(prefix="plant-")
    d = top + "/repo"
    try:
        sh(["cp", "-a", "/repo", d], "/")
        sh(["git", "checkout", "-q", "--", "."], d)
        out = top + "/seed"
        os.mkdir(out)
        shutil.copy(S + "/demo_util.h", out)
        open(out + "/demo.c", "w").write('#include "demo_util.h"\n' + s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write(open(S + "/demo.sh").read().replace("@FLAGS@", s["flags"]))
        os.chmod(out + "/demo.sh", 0o755)
        rc, o = sh(["bash", out + "/demo.sh"], d)
        if rc: return s["id"], "demo fails on the clean tree (%d): %s" % (rc, o[-1500:][-260:])
        for f, a, b in s["edits"]:
            p = d + "/sml/src/" + f
            t = open(p).read()
            if t.count(a) != 1: return s["id"], "%s: %d matches of %r" % (f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        # changed lines must be lines of the original repository
        cur = None; ln = 0; bl = {}; removed = 0; bad = 0
        for l in diff.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]; bl[cur] = blame(d, cur)
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if not bl[cur][ln - 1].startswith(BASE): bad += 1
                ln += 1
            elif l.startswith(" "): ln += 1
        if bad: return s["id"], "changes %d lines that are not original" % bad
        if not removed: return s["id"], "changes no original line"
        open(out + "/patch.diff", "w").write(diff)
        ok, o = tests(d)
        if not ok: return s["id"], "tests fail with the change: " + o[-260:]
        rc, o = sh(["bash", out + "/demo.sh"], d)
        if rc == 0: return s["id"], "demo does not notice the change"
        if rc in (2, 3): return s["id"], "demo broken with the change: " + o[-500:]
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = VERIF + "/seeded/" + s["id"]
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(out, dst)
        return s["id"], "ok (rc %d: %s)" % (rc, o.strip().split("\n")[-1][-90:] if "ERROR: Addr" not in o else re.search(r"AddressSanitizer: (\S+)", o).group(1))
    finally:
        shutil.rmtree(top)

want = sys.argv[1:]
todo = [s for s in seeds if (s["id"] in want if want else not os.path.exists(VERIF + "/seeded/" + s["id"] + "/patch.diff"))]
with cf.ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(one, todo):
        print(i, r, flush=True)
