#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run by hand; the output is committed).
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SEQ = "explicit enumeration of all operation histories (with environment deviations) of the real code against a reference model"
FAULT = "exhaustive fault injection: every call to the environment fails in turn, real code executed for each"
INT = "stateless model checking: all thread interleavings of the real code up to a preemption bound under a controlled scheduler"
T = {
 "B01": (SEQ, "every history up to the depth and deviation bound in the evidence; the source's answers are enumerated, its content is fixed"),
 "B02": (SEQ, "BytesRemaining is asked on every handle after every step of every history"),
 "B03": (SEQ, "all interleaved histories over up to three handles; small and multi-block contents"),
 "B04": (SEQ, "all copy/close/use orders up to the depth; the reader records every call"),
 "B05": (SEQ, "all seek histories up to the depth, contents up to 8 GiB (virtual)"),
 "B06": (SEQ, "all (offset,size) pairs around the boundaries mixed into histories, with short and failing source answers"),
 "B07": (FAULT, "an error at every source call of every history up to the depth"),
 "B08": (FAULT, "complete product of capability sets, declared lengths, file modes and failing construction calls; real files and pipes"),
 "B09": (SEQ, "every history around a write-out, writer failing after every number of bytes"),
 "B10": (SEQ, "every operation after Close at every point of every history"),
 "B11": (SEQ, "every history of large reads, copies and closes; live heap measured after each step"),
 "B12": (SEQ, "every value of a grammar up to a depth and every constructor sequence up to a length; concurrent construction under the scheduler"),
 "B13": (SEQ + "; all kinds run in lock-step", "every history up to the depth, all kinds compared pairwise"),
 "B15": (SEQ, "every operation history up to the depth, what stays reachable after closing observed through weak references"),
 "B14": (SEQ, "every operation history up to the depth, the reader's calls recorded and judged"),
 "C01": (INT + ", each history checked for linearizability by exhaustive search", "every schedule with at most the stated number of preemptions; scheduling points at every lock, atomic operation and reader call"),
 "C02": (INT + ", each history checked for linearizability by exhaustive search", "every schedule with at most the stated number of preemptions"),
 "C03": (INT, "every schedule with at most the stated number of preemptions; reader calls are scheduling points and checked for overlap"),
 "C04": (INT + ", each explored schedule monitored by a happens-before race detector", "race detection covers the memory accesses of each explored schedule; hand-offs of the explorer are hidden from the detector"),
 "C05": (INT + ", each explored schedule monitored by a happens-before race detector", "as C04, over servings of copies of one response"),
 "R01": (SEQ, "every builder call sequence up to the depth over the whole method set"),
 "R02": (SEQ, "every sequence of copy, mutation, build and serve up to the depth, all live headers compared after each step"),
 "R03": (FAULT, "grid of responses x writer capabilities x failure at every call"),
 "R04": (FAULT, "grid of responses x writer capabilities x failure or panic at every call"),
 "R05": ("exhaustive enumeration of all inputs up to a length bound, executed on the real code", "every location up to the length over the significant characters"),
 "R06": ("exhaustive enumeration of all statuses and error values, executed on the real code", "all statuses 0..1100"),
 "R07": (SEQ, "every interleaving of questions with copying, serving, reading and closing, up to the depth, over every body kind"),
 "W01": (SEQ, "every call sequence up to the depth over every capability set of the underlying writer"),
 "W02": (SEQ, "every write/read-from sequence up to the depth with every underlying answer"),
 "W03": ("exhaustive enumeration of all capability combinations and forwarded calls", "all combinations"),
 "H01": (FAULT, "handler behaviours x response shapes x failure or panic at every call"),
 "H02": (SEQ, "every request sequence up to the depth, all metric families compared before and after each"),
 "H03": (SEQ + " over the standard HTTP server and a real connection", "every pair of requests on one persistent connection; the standard library's server is part of the execution and trusted as deterministic in what it sends"),
 "M01": (SEQ, "every script up to the length x every call sequence up to that length"),
}
DONE = open(os.path.join(here, "claimed.txt")).read().split()
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in DONE:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking",
                       "level_note": note + ". Bounded: nothing is claimed beyond the bounds listed in the evidence file and DESIGN.md."})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh race", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's working tree with a Go build overlay that swaps package sync and sync/atomic for the explorer's shims and adds the harness packages."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
