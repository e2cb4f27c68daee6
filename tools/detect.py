#!/usr/bin/env python3
"""Runs the check of its property against each planted bug (in copies under /tmp) and
records in tools/detection.json whether it was caught.
usage: detect.py [--verif DIR] [--all-props] [ID-PREFIX ...]"""
import sys, os, json, subprocess, time, shutil, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mcdetect.%d" % os.getpid()
a = sys.argv[1:]
os.makedirs(W)
subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
shutil.copytree(VERIF, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
out = os.path.join(VERIF, "tools", "detection.json")
try: det = json.load(open(out))
except FileNotFoundError: det = {}
for d in sorted(glob.glob(VERIF + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    if a and not any(i.startswith(x) for x in a): continue
    prop = json.load(open(d + "meta.json"))["property"]
    subprocess.run(["git", "-C", W + "/repo", "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", W + "/repo", "apply", d + "patch.diff"], check=True)
    t = time.time()
    r = subprocess.run(["python3", W + "/verif/run.py", prop], env=dict(os.environ, MC_REPO=W + "/repo"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    c = r.returncode == 1 and bool(v)
    what = ""
    if c:
        rp = v[0].split("replay=")[-1].strip()
        try:
            j = json.load(open(rp)); what = j.get("scenario", "") + ": " + str(j.get("message", j.get("what", "")))[:100]
        except Exception as e: what = rp
    det[i] = dict(property=prop, caught=c, rc=r.returncode, s=round(time.time() - t, 1), by=what)
    print("%-26s %-6s rc=%d %5.1fs %s" % (i, "caught" if c else "MISSED", r.returncode, time.time() - t, what), flush=True)
    if not c: print(r.stdout[-600:], flush=True)
    det = {k: v for k, v in sorted(det.items()) if os.path.isdir(VERIF + "/seeded/" + k)}
    json.dump(det, open(out, "w"), indent=1)
shutil.rmtree(W)
