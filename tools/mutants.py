#!/usr/bin/env python3
"""Runs quick checks against ad-hoc mutants (and behaviour-preserving edits) of a scratch copy of /repo.
   mutants.py [NAME-PREFIX...]; the mutants themselves are in tools/mutants.txt:
     @ NAME PROP[,PROP] [ok]     header; "ok" = behaviour-preserving, the checks must stay quiet
     % FILE                      file to edit (repeatable)
     <<<<                        followed by the old text
     ====                        followed by the new text
     >>>>
"""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B, O = "/tmp/bhsim-mut/repo", "/tmp/bhsim-mut/build", "/tmp/bhsim-mut/out"

def load():
    ms, cur, f, st, old, new = [], None, None, None, [], []
    for l in open(V + "/tools/mutants.txt"):
        l = l.rstrip("\n")
        if st is None:
            if l.startswith("@ "):
                w = l.split(); cur = {"name": w[1], "props": w[2].split(","), "ok": "ok" in w[3:], "edits": []}; ms.append(cur)
            elif l.startswith("% "): f = l[2:].strip()
            elif l == "<<<<": st, old, new = "old", [], []
        elif st == "old" and l == "====": st = "new"
        elif st == "new" and l == ">>>>":
            cur["edits"].append((f, "\n".join(old), "\n".join(new))); st = None
        elif st == "old": old.append(l)
        else: new.append(l)
    return ms

def main():
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    tests = "--tests" in sys.argv
    os.makedirs(O + "/evidence", exist_ok=True); os.makedirs(O + "/replays", exist_ok=True)
    shutil.copy(V + "/known_findings.txt", O)
    if not os.path.exists(W): shutil.copytree("/repo", W, symlinks=True)
    subprocess.run("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", shell=True, cwd=W)
    import fcntl
    lock = open("/tmp/bhsim-mut/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)      # one at a time
    bad = 0
    for m in load():
        if pats and not any(m["name"].startswith(p) for p in pats): continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
        err = None
        for f, old, new in m["edits"]:
            p = W + "/" + f; t = open(p).read()
            if t.count(old) != 1: err = "%s: old text occurs %d times" % (f, t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        if err: print("%-34s BAD EDIT %s" % (m["name"], err), flush=True); bad += 1; continue
        for prop in m["props"]:
            t0 = time.time()
            env = dict(os.environ, BHSIM_REPO=W, BHSIM_BUILD=B, BHSIM_OUT=O, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["bash", V + "/check.sh", prop], env=env, capture_output=True, text=True, errors="replace")
            vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 2: res = "NO ANSWER rc=2 " + (r.stdout + r.stderr)[-600:]
            elif m["ok"]: res = "quiet" if r.returncode == 0 else "FALSE ALARM rc=%d " % r.returncode + " ".join(vio) + r.stdout[-800:]
            else: res = "caught" if r.returncode == 1 and vio else "MISSED rc=%d" % r.returncode
            if not res.startswith(("caught", "quiet")): bad += 1
            det = ""
            if res == "caught":
                d = [l for l in r.stdout.splitlines() if "class" in l or "violation" in l.lower()]
                det = " | ".join(d)[:150]
            print("%-34s %s %5.1fs %s %s" % (m["name"], prop, time.time() - t0, res, det), flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
    print("not as expected:", bad)
main()
