#!/usr/bin/env python3
"""Builds the checker of one property from /repo's working tree and runs it.
usage: run.py PROPERTY [--thorough] [--replay FILE] [--filter SCENARIO]"""
import sys, os, json, subprocess, glob, hashlib, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4

LIBW = ["-w", "-g", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]
UB = ["-fsanitize=bounds,null,signed-integer-overflow,integer-divide-by-zero,vla-bound,bool,enum,return,unreachable,builtin,array-bounds",
      "-fno-sanitize-recover=all"]
FLAVOURS = {
    # name: (C compiler, flags for the library, C++ compiler, flags for the harness, link flags)
    "asan": ("clang", ["-O1"] + ASAN, "clang++", ["-O2"], ["-fsanitize=address"]),
    "asanub": ("clang", ["-O1"] + ASAN + UB, "clang++", ["-O2", "-fsanitize=address"], ["-fsanitize=address,undefined"]),
    "fast": ("gcc", ["-O2"], "g++", ["-O2"], []),
    "edge": ("clang", ["-O1", "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"],
             "clang++", ["-O2"], []),
    "work": ("clang", ["-O0", "-fno-builtin", "-fsanitize-coverage=edge,trace-pc-guard"], "clang++", ["-O2"],
             ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free memcpy memmove memset memcmp strlen strnlen strcat strncat strcpy strncpy stpcpy strcmp strncmp strchr strrchr memchr strdup sprintf snprintf read poll select usleep nanosleep write".split())]),
    "tsan": ("clang", ["-O1", "-fsanitize=thread"], "clang++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}

def parts(prop):
    """the binaries of a check: (name, flavour, harness sources, library defines, extra)"""
    one = lambda src, fl="asan", **k: [dict(name=prop, flavour=fl, src=[src], **k)]
    table = {
        "C01": one("c01.cpp", "asanub"),
        "C06": [dict(name="C06", flavour="asan", src=["c06.cpp"])],
        "C10": one("c10.cpp", "fast"),
        "C11": one("c11.cpp", io=True), "C12": one("c12.cpp", io=True), "C13": one("c13.cpp", io=True),
        "C14": one("c14.cpp", io=True, ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"]), "C15": one("c15.cpp", io=True), "C16": one("c16.cpp", io=True), "C17": one("c17.cpp", io=True), "C07": one("c07.cpp", io=True), "C08": one("c08.cpp", io=True),
        "C18": one("c18.cpp", "edge"),
        "C25": one("c25.cpp", "work"), "C29": one("c29.cpp", io=True),
        "C21": one("c21.cpp", io=True, csrc=[("@REPO@/examples/sml_server.c", ["-Dmain=sml_server_main"])], asan=":symbolize=0"),
        "C31": one("c31.cpp", io=True, csrc=[("@REPO@/examples/sml_server.c", ["-Dmain=sml_server_main"])], asan=":symbolize=0"),
        "C22": [dict(name="C22", flavour="asan", src=["c22.cpp"]),
                dict(name="C22-big", flavour="fast", src=["c22.cpp"], xdefs=["-DBIG"])],
        "C26": [dict(name="C26", flavour="asan", src=["c26.cpp"]),
                dict(name="C26-big", flavour="fast", src=["c26.cpp"], xdefs=["-DBIG"])],
        "C23": [dict(name="C23", flavour="asan", src=["c23.cpp"]),
                dict(name="C23-nouuid", flavour="asan", src=["c23.cpp"], defs=["-DSML_NO_UUID_LIB"])],
    }
    return table.get(prop) or one(prop.lower() + ".cpp")

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def digest(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()

def build(part):
    cc, cflags, cxx, xflags, lflags = FLAVOURS[part["flavour"]]
    defs = part.get("defs", [])
    inc = ["-I" + os.path.join(REPO, "sml/include"), "-I" + os.path.join(REPO, "examples"), "-I" + MC]
    headers = sorted(glob.glob(REPO + "/sml/**/*.h", recursive=True) + glob.glob(REPO + "/examples/*.h") + glob.glob(MC + "/*.hpp"))
    hd = digest(*headers)
    lib = sorted(glob.glob(REPO + "/sml/src/*.c"))
    jobs = [(f, [cc, "-std=gnu99"] + LIBW + cflags + defs + inc) for f in lib]
    for f, extra in part.get("csrc", []):
        jobs.append((f.replace("@REPO@", REPO), [cc, "-std=gnu99"] + LIBW + cflags + defs + inc + extra))
    io = ["io.cpp"] if part.get("io") else []
    for f in ["mc.cpp", "model.cpp"] + io + part["src"]:
        jobs.append((os.path.join(MC, f), [cxx, "-std=c++17", "-g1", "-Wall", "-U_FORTIFY_SOURCE"] + xflags + defs + part.get("xdefs", []) + inc))
    cache = os.path.join(BUILD, "obj")
    os.makedirs(cache, exist_ok=True)
    def comp(j):
        f, cmd = j
        key = hashlib.sha256((" ".join(cmd) + hd + digest(f)).encode()).hexdigest()[:24]
        o = os.path.join(cache, key + ".o")
        if not os.path.exists(o):
            t = "%s.%d.tmp" % (o, os.getpid())
            r = sh(cmd + ["-c", f, "-o", t])
            if r.returncode:
                return f, None, r.stdout
            os.rename(t, o)
        return f, o, ""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(comp, jobs))
    bad = [r for r in res if r[1] is None]
    if bad:
        print("BUILD ERROR %s\n%s" % (bad[0][0], bad[0][2][-3000:]))
        sys.exit(2)
    exe = os.path.join(BUILD, "%s.%d" % (part["name"], os.getpid()))
    libs = ["-lm", "-lpthread"] + ([] if "-DSML_NO_UUID_LIB" in defs else ["-luuid"])
    r = sh([cxx, "-o", exe] + [x[1] for x in res] + lflags + part.get("ldflags", []) + libs)
    if r.returncode:
        print("LINK ERROR\n" + r.stdout[-3000:])
        sys.exit(2)
    return exe

def known(prop):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [k for k in d.get("known", []) if k["property"] == prop]

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    if prop == "--setup": # checks build what they need; here only the objects they share
        os.unlink(build(parts("C02")[0]))
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = filt = None
    while a:
        x = a.pop(0)
        if x == "--thorough": tier = "thorough"
        elif x == "--quick": tier = "quick"
        elif x == "--replay": replay = a.pop(0)
        elif x == "--filter": filt = a.pop(0)
    t0 = time.time()
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=1:thread_local_quarantine_size_kb=64:detect_stack_use_after_return=0:max_malloc_fill_size=64:malloc_context_size=1:handle_segv=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["LC_ALL"] = "C"
    kn = known(prop)
    results, rc = [], 0
    for part in parts(prop):
        if replay and json.load(open(replay)).get("binary", part["name"]) != part["name"]:
            continue
        exe = build(part)
        out = exe + ".json"
        cmd = [exe, "--replaydir", os.path.join(VERIF, "replays"), "--out", out]
        if tier == "thorough": cmd.append("--thorough")
        for k in kn: cmd += ["--known", k["key"]]
        if filt: cmd += ["--filter", filt]
        if replay:
            r = json.load(open(replay))
            cmd += ["--scenario", r["scenario"], "--path", ",".join(map(str, r["path"]))]
        r = subprocess.run(cmd, env=dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] + part.get("asan", "")), cwd=VERIF)
        try:
            results.append((part, json.load(open(out))))
            os.unlink(out)
        except FileNotFoundError:
            pass
        os.unlink(exe)
        if r.returncode not in (0, 1):
            print("ERROR: %s ended with %d" % (part["name"], r.returncode))
            sys.exit(2)
        if r.returncode:
            rc = 1
            break
    if replay:
        sys.exit(rc)
    scen, samples = [], []
    tot = dict(executions=0, choices=0, validated=0, distinct=0, transitions=0)
    complete = True
    seen_known = {}
    for part, d in results:
        for k in tot: tot[k] += d[k]
        complete = complete and d["complete"]
        for k, n in d["known"].items(): seen_known[k] = seen_known.get(k, 0) + n
        for s in d["scenarios"]:
            sm = s.pop("samples")
            for x in sm[:1]:
                if len(samples) < 12: samples.append(s["name"] + ": " + x)
            s["binary"] = part["name"]
            scen.append(s)
    for k in kn:
        if seen_known.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick",
              seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["distinct"], transitions=tot["choices"] + tot["transitions"],
                            traces_validated_against_impl=tot["executions"],
                            comparisons_with_model=tot["validated"],
                            samples=samples or ["(none: stopped at a violation)"], exhaustive=bool(complete),
                            scenarios=scen,
                            meaning="states: distinct inputs/outcomes/histories observed; transitions: explored choice points; traces: executions of the real code, each compared with the reference model"),
              assumptions=["within the bounds stated per scenario", "the reference model in /verif/mc/model.cpp",
                           "compilers and sanitizers of the sandbox"],
              wall_s=round(time.time() - t0, 2), violations=0 if rc == 0 else 1)
    if seen_known: ev["coverage"]["known_findings_hit"] = seen_known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s in %.1f s (%d executions, %d states%s)" % (prop, "VIOLATED" if rc else "held", time.time() - t0,
          tot["executions"], tot["distinct"], "" if complete else ", time cap reached"))
    sys.exit(rc)

main()
