#!/usr/bin/env python3
# Refreshes the generated parts of DESIGN.md (run by hand after ./build.sh).
import glob, json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
doc = subprocess.run([verif + "/.build/mcrun", "-doc"], capture_output=True, text=True, check=True).stdout
titles = {}
for l in open(verif + "/properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
why = dict(re.findall(r"^(\w+): (.*)$", open(here + "/why.txt").read(), re.M))
# the assumptions many share are said once
shared = {"S": "sources obey the io.Reader, io.ReaderAt and io.Seeker contracts within the stated deviation menu; a source answering (0, nil) forever is outside the space; argument values outside the stated alphabets are not explored; content bytes are position-dependent and otherwise opaque to the code; the shim replacing package sync behaves like package sync in single-threaded use",
          "T": "scheduling points: before every lock acquisition and atomic operation, at operation boundaries, and twice inside every call of the reader or writer; plain memory accesses between two points are not interleaved here (that they are ordered is C04); blocking switches are free, other switches count as preemptions"}
out = ["Shared assumptions. [S] " + shared["S"] + ". [T] " + shared["T"] + ".", ""]
for para in doc.strip().split("\n\n"):
    m = re.match(r"\*\*(\w+)\.\*\* (.*?)\.\n  (Quick: .*)", para, re.S)
    i, rule, rest = m.groups()
    for k, v in shared.items(): rest = rest.replace(v, "[" + k + "]")
    out += ["**%s — %s.** %s%s. %s Why not tests: %s" % (i, titles[i], rule[0].upper(), rule[1:], rest, why[i]), ""]
p = verif + "/DESIGN.md"; s = open(p).read()
def put(s, name, text):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + text + "\n" + s[j:]
s = put(s, "rules", "\n".join(out))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
catch = json.load(open(here + "/seed/catch.json")) if os.path.exists(here + "/seed/catch.json") else {}
for d in sorted(glob.glob(verif + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), ", ".join(catch.get(n, [])) or "not recorded"))
s = put(s, "seeds", "\n".join(rows))
open(p, "w").write(s)
