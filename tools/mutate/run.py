#!/usr/bin/env python3
"""Runs the checks against mutants of /repo's HEAD in scratch copies (development tool).
usage: run.py OUT.jsonl JOBS file... ; results are appended to OUT.jsonl"""
import json, os, shutil, subprocess, sys, threading, queue, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.abspath(os.path.join(here, "..", ".."))
out, jobs, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
env = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
ORDER = {
 "body": "B13 B01 B02 B06 B05 B03 B04 B07 B09 B10 B08 B12 R03 R04 H03".split(),
 "response": "R03 R04 R05 R06 W03 H01 H02 H03 R02 R01 W01 C05".split(),
 "handler": "H01 H02 H03".split(),
 "internal": ["M01"],
}
muts = []
r = subprocess.run(["go", "run", "."] + [os.path.join("/repo", f) for f in files], cwd=here, env=dict(env, GOFLAGS=""), capture_output=True, text=True, check=True)
for l in r.stdout.splitlines():
    muts.append(json.loads(l))
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)["id"])
q = queue.Queue()
for m in muts:
    m["id"] = f"{m['file']}@{m['Start']}-{m['End']}:{m['New']}"
    if m["id"] not in done:
        q.put(m)
print(len(muts), "mutants,", q.qsize(), "to run", flush=True)
lock = threading.Lock()
def work(k):
    base = f"/tmp/mut/w{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo, bld = base + "/repo", base + "/build"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
    e = dict(env, VERIF_REPO=repo, VERIF_BUILD=bld)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        rel = os.path.relpath(m["file"], "/repo")
        p = os.path.join(repo, rel)
        src = open(m["file"], "rb").read()
        open(p, "wb").write(src[:m["Start"]] + m["New"].encode() + src[m["End"]:])
        res = {"id": m["id"], "desc": m["Desc"]}
        t0 = time.time()
        try:
            t = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=repo, env=e, capture_output=True, text=True)
            if t.returncode != 0:
                res["result"] = "nocompile" if "[build failed]" in t.stdout or "[setup failed]" in t.stdout else "tests"
            else:
                res["result"] = "SURVIVED"
                props = list(ORDER[rel.split("/")[0]])
                if os.path.basename(rel) in ("buffered.go", "readerat.go", "seeker.go"):
                    props += ["B11", "C04", "C03"]
                bl = subprocess.run([verif + "/build.sh"], env=e, capture_output=True, text=True)
                raced = False
                for prop in props:
                    if bl.returncode != 0:
                        res["result"], res["msg"] = "error", (bl.stdout + bl.stderr)[-300:]
                        break
                    args = [bld + "/mcrun", "-prop", prop, "-tier", "quick", "-evidence", base + "/ev.json", "-replays", base + "/replays", "-known", verif + "/known-findings.txt", "-jobs", str(max(1, 8 // jobs))]
                    if prop in ("C04", "C05"):
                        if not raced:
                            subprocess.run([verif + "/build.sh", "race"], env=e, capture_output=True)
                            raced = True
                        args += ["-racebin", bld + "/mcrun-race"]
                    c = subprocess.run(args, cwd=verif, env=e, capture_output=True, text=True)
                    if c.returncode == 1 and "VIOLATION property=" in c.stdout:
                        res["result"], res["by"] = "caught", prop
                        res["msg"] = [l for l in c.stdout.splitlines() if ": " in l][:1]
                        break
                    if c.returncode not in (0, 1):
                        res["result"], res["by"] = "error", prop
                        res["msg"] = (c.stdout + c.stderr)[-300:]
                        break
        finally:
            open(p, "wb").write(src)
        res["s"] = round(time.time() - t0, 1)
        with lock:
            open(out, "a").write(json.dumps(res) + "\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree("/tmp/mut", ignore_errors=True)
