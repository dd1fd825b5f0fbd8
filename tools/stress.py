#!/usr/bin/env python3
"""stress.py SEED N [FAMILY...]: all clauses (Focus ALL) on N segments of each family; prints every rejection."""
import concurrent.futures as cf, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
import families
seed, n = int(sys.argv[1]), int(sys.argv[2])
fams = sys.argv[3:] or list(families.FAMILIES)
exe, num = check.build(), check.classes()
work = check.BUILD + "/stress-%d" % os.getpid()
CH = {"loops": 5}
jobs = [(f, s, min(CH.get(f, 40), n - s)) for f in fams for s in range(0, n, CH.get(f, 40))]
def one(j):
    f, s, c = j
    w = "%s/%s-%d" % (work, f, s)
    segs = families.make(f, c, seed, s)
    try: r = check.validate(exe, num, segs, "ALL", w, seed)
    except check.CannotTell as e: return j, None, str(e)[-500:], None
    sg = None
    if r.fails or r.broken:
        sg = check.seg_of(r.trace, r.fails[0][0] if r.fails else 10**9)
        os.makedirs(check.BUILD + "/stress", exist_ok=True)
        with open("%s/stress/%s-%d-%d.jsonl" % (check.BUILD, f, seed, s + sg), "w") as o:
            import json
            for x in segs[sg]: o.write(json.dumps(x) + "\n")
        sg += s
    shutil.rmtree(w)
    return j, r, None, sg
bad = 0
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    for j, r, e, sg in ex.map(one, jobs):
        if e: print("ERROR", j, e); bad += 1
        elif r.fails or r.broken: print("REJECTED", j, "segment", sg, r.fails[:2], (r.broken or "")[:300], flush=True); bad += 1
shutil.rmtree(work, ignore_errors=True)
print("seed", seed, "jobs", len(jobs), "bad", bad)
