#!/usr/bin/env python3
"""Quick look at draft bugs before they get a demonstration: trybugs.py FILE [ID...]; FILE defines B, a
list of (id, property, [(file, old, new)...]). Works in copies under /tmp."""
import sys, os, subprocess, shutil, json, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mctry.%d" % os.getpid()
PAR = int(os.environ.get("PAR", "2"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
q = queue.Queue()
for b in ns["B"]:
    if not sys.argv[2:] or b[0] in sys.argv[2:]: q.put(b)
lock = threading.Lock()
def work(k):
    w = W + "/%d" % k
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    shutil.copytree(VERIF, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    while True:
        try: i, p, eds = q.get_nowait()
        except queue.Empty: return
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."], check=True)
        bad = ""
        for f, o, n in eds:
            path = w + "/repo/sml/src/" + f if not f.startswith("examples") else w + "/repo/" + f
            s = open(path).read()
            if s.count(o) < 1: bad = "old text not found in " + f; break
            open(path, "w").write(s.replace(o, n, 1))
        if not bad:
            r = subprocess.run("make -C sml >/dev/null 2>%s/err && make -C test test >/dev/null 2>>%s/err && ./test/test >%s/t 2>&1; tail -3 %s/t | grep -q '^OK'" % (w, w, w, w), shell=True, cwd=w + "/repo")
            if r.returncode: bad = "tests or build: " + open(w + "/err").read()[-300:]
        if bad:
            with lock: print("%-26s BAD %s" % (i, bad), flush=True)
            continue
        out = []
        for c in p.split():
            t = time.time()
            r = subprocess.run(["python3", w + "/verif/run.py", c], env=dict(os.environ, MC_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            m = ""
            if v:
                try: j = json.load(open(v[0].split("replay=")[-1].strip())); m = j.get("scenario", "") + ": " + str(j.get("message", j.get("what", "")))[:90]
                except Exception: pass
            elif r.returncode: m = "rc=%d %s" % (r.returncode, r.stdout[-200:])
            out.append((c, bool(v), time.time() - t, m))
            if v: break
        with lock: print("%-26s %s" % (i, "; ".join("%s %s %.0fs %s" % (c, "caught" if v else "MISSED", t, m) for c, v, t, m in out)), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(PAR)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(W, ignore_errors=True)
