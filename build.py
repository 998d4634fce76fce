#!/usr/bin/env python3
"""Builds build/bhsim: /repo's sources (instrumented) + the simulator. Incremental by content hash."""
import hashlib, json, os, subprocess, sys, concurrent.futures, fcntl, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BHSIM_REPO", "/repo")
B = os.environ.get("BHSIM_BUILD", os.path.join(V, "build"))
CXX = "/usr/bin/g++"
COMMON = ["-std=c++14", "-g1", "-w", "-include", "cstdint", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer", "-fno-pie",
          "-pthread", "-I" + REPO + "/include"]
LIB = COMMON + ["-O1", "-I" + REPO + "/src", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "--param", "tsan-instrument-func-entry-exit=0"]
RT = COMMON + ["-std=c++17", "-O2", "-fno-builtin", "-fno-threadsafe-statics"]
HARNESS = COMMON + ["-O1"]

def sha(p):
    with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()

def deps_of(d):
    t = open(d).read().replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split()]

cache = {}
def csha(p):
    if p not in cache:
        cache[p] = sha(p) if os.path.exists(p) else "missing"
    return cache[p]

def compile_one(job):
    src, obj, flags = job
    meta = obj + ".json"
    key = hashlib.sha256(" ".join([src] + flags).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["flags"] == key and all(csha(p) == h for p, h in m["deps"].items()): return (obj, False, "")
        except Exception: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode: return (obj, None, r.stdout + r.stderr)
    deps = {p: csha(os.path.abspath(p)) for p in deps_of(obj + ".d") if not p.startswith("/usr/")}
    json.dump({"flags": key, "deps": deps}, open(meta, "w"))
    return (obj, True, r.stderr)

def main():
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    libobjs = []
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            if f.endswith(".cpp"):
                s = os.path.join(root, f)
                o = os.path.join(B, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o")
                libobjs.append(o); jobs.append((s, o, LIB))
    simobjs = []
    for s in sorted(glob.glob(os.path.join(V, "sim", "*.cpp"))):
        n = os.path.basename(s)
        o = os.path.join(B, "sim", n + ".o")
        if n in ("rt.cpp", "os.cpp"): fl = RT
        elif n.startswith("client"): fl = LIB
        else: fl = HARNESS
        simobjs.append(o); jobs.append((s, o, fl))
    def weight(j): return -os.path.getsize(j[0])
    jobs.sort(key=lambda j: (0 if j[2] is LIB or "scn" in j[0] else 1, weight(j)))
    changed = False
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("BHSIM_JOBS", "8"))) as ex:
        for obj, ch, msg in ex.map(compile_one, jobs):
            if ch is None:
                sys.stderr.write(msg + "\nbuild failed: %s\n" % obj); sys.exit(2)
            if msg and os.environ.get("BHSIM_WARN"): sys.stderr.write(msg)
            changed |= bool(ch)
    exe = os.path.join(B, "bhsim")
    linkkey = hashlib.sha256("\n".join(libobjs + simobjs).encode()).hexdigest()
    lk = os.path.join(B, "link.key")
    if changed or not os.path.exists(exe) or not os.path.exists(lk) or open(lk).read() != linkkey:
        # library objects come first so that shared inline functions are the instrumented ones
        cmd = [CXX, "-no-pie", "-g1", "-pthread", "-rdynamic", "-o", exe + ".tmp"] + libobjs + simobjs + ["-lboost_thread", "-lboost_system", "-lcds", "-ldl", "-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout + r.stderr + "\nlink failed\n"); sys.exit(2)
        os.replace(exe + ".tmp", exe)
        open(lk, "w").write(linkkey)
    # drop objects of sources that no longer exist
    for o in glob.glob(os.path.join(B, "lib", "*.o")):
        if o not in libobjs: os.remove(o)
main()
