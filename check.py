#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--suite S] [--keep]
Builds the harness of property ID from the current tree of /repo and runs it."""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS

COMMON = ["-std=c++20", "-O1", "-ftrivial-auto-var-init=pattern", "-g1", "-w", "-mavx", "-fno-omit-frame-pointer", "-pthread",
          "-DNEOLIB_HOSTED_ENVIRONMENT", "-D_GLIBCXX_ASSERTIONS",
          "-I" + REPO + "/include", "-I" + V + "/engine/inc", "-I" + V + "/engine", "-include", V + "/engine/shim.hpp"]
GCC = ["-Wno-changes-meaning"]

def tree_key(cfg, id):
    h = hashlib.sha256()
    def add(p):
        h.update(p.encode()); h.update(open(p, "rb").read())
    for base in (REPO + "/include", REPO + "/src"):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files): add(os.path.join(d, f))
    for d in (V + "/engine", V + "/engine/inc/neolib"):
        for f in sorted(os.listdir(d)):
            if os.path.isfile(os.path.join(d, f)): add(os.path.join(d, f))
    for f in sorted(os.listdir(V + "/props")):
        if f.startswith(id) or f.endswith(".hpp"): add(V + "/props/" + f)
    h.update(json.dumps([cfg["src"], cfg["repo"], cfg["libs"], cfg["flags"], cfg["cxx"], cfg["asan"], COMMON]).encode())
    h.update(open(V + "/check.py", "rb").read())
    return h.hexdigest()

def build(id):
    cfg = CHECKS[id]
    bd = os.environ.get("VERIF_BUILD", V + "/.build") + "/" + id
    exe, keyf = bd + "/run", bd + "/key"
    key = tree_key(cfg, id)
    if os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key: return exe
    shutil.rmtree(bd, ignore_errors=True); os.makedirs(bd)
    flags = COMMON + (GCC if cfg["cxx"].startswith("g++") else ["-ferror-limit=5"]) + cfg["flags"]
    san = ["-fsanitize=thread"] if cfg["asan"] == "thread" else ["-fsanitize=address"] if cfg["asan"] else []
    jobs = [(V + "/engine/pbt_main.cpp", bd + "/main.o")]
    # a harness file may be split in parts (#if PBT_PART == n) that are compiled in parallel
    for s in cfg["src"]:
        n = open(V + "/props/" + s).read().count("if PBT_PART ==")
        jobs += [(V + "/props/" + s, bd + "/p%d_" % k + s.replace("/", "_") + ".o", "-DPBT_PART=%d" % k) for k in range(max(n, 1))]
    jobs += [(REPO + "/" + s, bd + "/r_" + s.replace("/", "_") + ".o") for s in cfg["repo"]]
    def one(j):
        r = subprocess.run([cfg["cxx"]] + flags + san + list(j[2:]) + ["-c", j[0], "-o", j[1]], capture_output=True, text=True)
        return j[0], r.returncode, r.stderr
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for f, rc, err in res:
        if rc and f.startswith(V + "/props/") and "error: " in err and "Killed" not in err and all(not r for g, r, _ in res if not g.startswith(V + "/props/")):
            # the repository still builds, but an operation the property is about cannot be used any more
            rp = ("replays/" if os.getcwd() == V else V + "/replays/") + id + "-build.txt"
            os.makedirs(V + "/replays", exist_ok=True); open(rp, "w").write("# the harness does not compile against this tree; nothing was run\n" + err)
            print("\n".join(l for l in err.splitlines() if "error: " in l)[:3000] + "\nVIOLATION property=" + id + " replay=" + rp); sys.exit(1)
        if rc: print("BUILD ERROR (" + f + ")\n" + "\n".join(l for l in err.splitlines() if "error" in l)[:3000] + "\n...\n" + err[-600:]); sys.exit(2)
    r = subprocess.run([cfg["cxx"], "-pthread"] + san + [j[1] for j in jobs] + ["-o", exe] + cfg["libs"], capture_output=True, text=True)
    if r.returncode and "undefined reference" in r.stderr:
        # the sources listed in checks.py may have come to need another one: offer the linker all of them
        import glob
        more = [f for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if f[len(REPO) + 1:] not in cfg["repo"] and "/win32/" not in f]
        extra = [(f, bd + "/x_" + f[len(REPO) + 1:].replace("/", "_") + ".o") for f in more]
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, extra))
        objs = [j[1] for j, x in zip(extra, res) if not x[1]]
        subprocess.run(["ar", "crs", bd + "/rest.a"] + objs)
        libs = cfg["libs"] + sorted({l for c in CHECKS.values() for l in c["libs"]})
        first = r.stderr
        r = subprocess.run([cfg["cxx"], "-pthread"] + san + [j[1] for j in jobs] + [bd + "/rest.a", "-o", exe] + libs, capture_output=True, text=True)
        for o in objs: os.unlink(o)
        if r.returncode: r.stderr = first
    if r.returncode: print("LINK ERROR\n" + r.stderr[-4000:]); sys.exit(2)
    for j in jobs: os.unlink(j[1])
    open(keyf, "w").write(key)
    return exe

def main():
    a = sys.argv[1:]; id = a.pop(0); tier = os.environ.get("VERIF_TIER", "quick"); extra = []; replay = None
    seed = os.environ.get("VERIF_SEED", "1")
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--replay": replay = a.pop(0)
        elif x == "--seed": seed = a.pop(0)
        else: extra += [x] + ([a.pop(0)] if a else [])
    cfg = CHECKS[id]
    t0 = time.time()
    exe = build(id)
    t1 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pbt-" + id + "-")
    ev = tmp + "/evidence.json"
    cmd = [exe, "--property", id, "--tier", tier, "--seed", seed, "--replays", "replays" if os.getcwd() == V else V + "/replays",
           "--known", V + "/known_findings.txt", "--tmp", tmp, "--jobs", str(cfg["jobs"])]
    cmd += ["--replay", replay] if replay else ["--evidence", ev]
    env = dict(os.environ, ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "")
    try:
        rc = subprocess.run(cmd + extra, env=env).returncode
    finally:
        if not replay and os.path.exists(ev):
            txt = open(ev).read().replace("@RULE@", json.dumps(cfg["rule"]))
            e = json.loads(txt)
            e["assumptions"] = cfg["assumptions"]
            e["coverage"]["build_s"] = round(t1 - t0, 1)
            e["wall_s"] = round(time.time() - t0, 2)
            if not extra: open(V + "/evidence/" + id + ".json", "w").write(json.dumps(e, indent=1) + "\n")
        shutil.rmtree(tmp, ignore_errors=True)
    print("build %.1f s, run %.1f s" % (t1 - t0, time.time() - t1))
    sys.exit(rc)
main()
