#!/usr/bin/env python3
"""Runs every check on behaviour-preserving rewrites of the library (tools/refactors/*.py edit
a copy of /repo) and reports those that do not stay quiet; results (latest per check) in tools/quiet.json.
usage: quiet.py [-p C01,C02] [NAME-PREFIX ...]"""
import sys, os, json, subprocess, time, shutil, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mcquiet.%d" % os.getpid()
a = sys.argv[1:]
props = None
if a[:1] == ["-p"]: props = a[1].split(","); a = a[2:]
os.makedirs(W)
subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
shutil.copytree(VERIF, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
allp = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
out = os.path.join(VERIF, "tools", "quiet.json")
try: res = json.load(open(out))
except FileNotFoundError: res = {}
for d in sorted(glob.glob(VERIF + "/tools/refactors/*.py")):
    n = os.path.basename(d)[:-3]
    if a and not any(n.startswith(x) for x in a): continue
    subprocess.run(["git", "-C", W + "/repo", "checkout", "-q", "--", "."], check=True)
    subprocess.run(["python3", d], cwd=W + "/repo", check=True)
    b = subprocess.run("make -s clean >/dev/null 2>&1; make -s 2>&1 | tail -5; make -s -C test test 2>&1 | tail -3; make -s clean >/dev/null 2>&1", shell=True, cwd=W + "/repo", stdout=subprocess.PIPE, text=True)
    print("==", n, b.stdout.strip().replace("\n", " | ")[-300:], flush=True)
    bad = []
    for p in props or allp:
        t = time.time()
        r = subprocess.run(["python3", W + "/verif/run.py", p], env=dict(os.environ, MC_REPO=W + "/repo"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode or "VIOLATION" in r.stdout:
            bad.append(p)
            print("   %s rc=%d %.0fs\n%s" % (p, r.returncode, time.time() - t, r.stdout[-1500:]), flush=True)
        elif time.time() - t > 200:
            print("   %s slow %.0fs" % (p, time.time() - t), flush=True)
    print("  ", n, "noisy: " + " ".join(bad) if bad else "quiet", flush=True)
    if True:
        old = res.get(n, {"bad": [], "checks": []})
        done = props or allp
        res[n] = {"bad": sorted(set(old["bad"]) - set(done) | set(bad)), "checks": sorted(set(old["checks"]) | set(done))}
        json.dump(res, open(out, "w"), indent=1)
shutil.rmtree(W)
