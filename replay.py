#!/usr/bin/env python3
"""replay.py <property id | ALL> <script.jsonl>: run one script in the real library and show what the specification says."""
import json, os, shutil, sys
import check
exe, num = check.build(), check.classes()
segs = []
for l in open(sys.argv[2]):
    o = json.loads(l)
    if o["op"] == "reset": segs.append([])
    segs[-1].append(o)
w = check.BUILD + "/replay-%d" % os.getpid()
try:
    r = check.validate(exe, num, segs, sys.argv[1], w, int(os.environ.get("VERIF_SEED", "1")))
    tr = open(r.trace).read().split("\n")
    for kind, fs in (("FAIL", r.fails), ("KNOWN", r.known), ("OTHER", r.other)):
        for line, op, label in fs: print(kind, line, op, label, "\n   ", tr[line - 1][:2000])
    if r.broken: print("BROKEN", r.broken)
    print(len(tr) - 1, "events;", sum(r.marks.values()), "clauses")
finally: shutil.rmtree(w, ignore_errors=True)
