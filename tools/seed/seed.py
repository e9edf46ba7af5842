#!/usr/bin/env python3
"""Development tool: turns seed specifications (specs/*.py) into /verif/seeded/<id>/, after
confirming each in a scratch copy of /repo: the patch applies, builds, the stable tests
pass, the demonstration passes without and fails with it.
usage: seed.py [ID...]        confirm and (re)write
       seed.py -check [ID...] also run the property's quick check (and those of "also") against each,
                              recording in catch.json which reported it"""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.abspath(os.path.join(here, "..", ".."))
SEEDS = []
def seed(**k): SEEDS.append(k)
for f in sorted(glob.glob(here + "/specs/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
DEMO = '''#!/bin/bash
# Demonstration for this change; run with cwd = the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/@PKG@/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
timeout 200 go test @RACE@-vet=off -count=1 -timeout 180s -overlay "$tmp/overlay.json" -modfile "$tmp/go.mod" -run '^TestDemo' ./@PKG@
'''
args = sys.argv[1:]
check = "-check" in args
only = [a for a in args if not a.startswith("-")]
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env["PATH"]
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=dict(env, **k), capture_output=True, text=True)
bad = 0
for s in SEEDS:
    if only and s["id"] not in only: continue
    base = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = base + "/repo"
        shutil.copytree("/repo", repo)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        d = base + "/seed"; os.makedirs(d)
        open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("@RACE@", "-race " if s.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        r = run([d + "/demo.sh"], repo)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-500:]); bad += 1; continue
        ok = True
        for f, old, new in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], f, "old text occurs", t.count(old), "times:", old[:80]); ok = False; break
            open(repo + "/" + f, "w").write(t.replace(old, new))
        if not ok: bad += 1; continue
        diff = run(["git", "diff"], repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = run(["go", "build", "./..."], repo)
        if r.returncode != 0: print(s["id"], "BUILD", r.stderr[-1500:]); bad += 1; continue
        r = run(["go", "test", "-vet=off", "-count=1", "./..."], repo)
        if r.returncode != 0: print(s["id"], "TESTS", r.stdout[-1500:]); bad += 1; continue
        r = run([d + "/demo.sh"], repo)
        if r.returncode == 0: print(s["id"], "DEMO PASSES PATCHED"); bad += 1; continue
        why = [l for l in r.stdout.splitlines() if "demo" in l or "panic" in l or "RACE" in l][:2]
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = verif + "/seeded/" + s["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        msg = "ok demo: " + (why[0].strip()[:110] if why else "?")
        if check:
            res, caught = [], []
            for p in [s["prop"]] + s.get("also", []):
                c = run([verif + "/check.sh", p, "quick", "-evidence", base + "/ev.json", "-replays", base + "/rp"], verif, VERIF_REPO=repo, VERIF_BUILD=base + "/build")
                hit = c.returncode == 1 and ("VIOLATION property=" + p) in c.stdout
                res.append(p + ("=CAUGHT" if hit else "=missed(rc %d)" % c.returncode))
                if hit: caught.append(p)
                if not hit and p == s["prop"]: bad += 1
                if c.returncode not in (0, 1): print(c.stdout[-500:], c.stderr[-500:])
            msg += "  " + " ".join(res)
            cj = here + "/catch.json"
            catch = json.load(open(cj)) if os.path.exists(cj) else {}
            catch[s["id"]] = caught
            json.dump(catch, open(cj, "w"), indent=1, sort_keys=True)
        print(s["id"], msg, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
print("bad:", bad)
