#!/usr/bin/env python3
"""For every repaired defect: takes the repair out again (in a copy under /tmp) and runs the check that
known_findings.json names; it has to report the defect. Results in tools/unfix.json.
usage: unfix.py [COMMIT...]"""
import sys, os, json, subprocess, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mcunfix.%d" % os.getpid()
os.makedirs(W)
subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
shutil.copytree(VERIF, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
out = os.path.join(VERIF, "tools", "unfix.json")
try: res = json.load(open(out))
except FileNotFoundError: res = {}
G = ["git", "-C", W + "/repo", "-c", "user.name=x", "-c", "user.email=x@x"]
for f in json.load(open(VERIF + "/known_findings.json"))["fixed"]:
    _, p, c, what = f.split(" ", 3)
    p = p.split("=")[1]
    if sys.argv[1:] and c not in sys.argv[1:]: continue
    subprocess.run(G + ["reset", "-q", "--hard", "origin/HEAD"], check=True)
    how = "reverted"
    if subprocess.run(G + ["revert", "-n", c], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        subprocess.run(G + ["reset", "-q", "--hard", c + "^"], check=True)
        how = "commit before it"
    t = time.time()
    r = subprocess.run(["python3", W + "/verif/run.py", p], env=dict(os.environ, MC_REPO=W + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
    msg = ""
    if v:
        try: j = json.load(open(v[0].split("replay=")[-1].strip())); msg = j.get("scenario", "") + ": " + str(j.get("message", j.get("what", "")))[:160]
        except Exception: pass
    res[c] = dict(property=p, what=what, how=how, rc=r.returncode, reported=bool(v) and r.returncode == 1, by=msg)
    print("%s %s %-16s rc=%d %4.0fs %s | %s" % (c, p, how, r.returncode, time.time() - t, "reported" if v else "NOT REPORTED", msg), flush=True)
    json.dump(res, open(out, "w"), indent=1)
shutil.rmtree(W)
