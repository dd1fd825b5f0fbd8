#!/usr/bin/env python3
"""model.py NAME [quick|thorough] [N]: explore a model, replay (N events of) it and report everything TraceDOA rejects."""
import os, shutil, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/gen"]
import check, models, concurrent.futures as cf
name, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
t = time.time()
num = check.classes()
w = check.BUILD + "/model-" + name
shutil.rmtree(w, ignore_errors=True)
if len(sys.argv) > 3: models.MODELS[name][tier] = (models.MODELS[name][tier][0], int(sys.argv[3]))
m = models.run(name, tier, 1, lambda *a, **k: check.explore(w, *a, num=num, **k), check.CannotTell)
print({k: v for k, v in m.items() if k != "segments"}, len(m["segments"]), "segments", sum(map(len, m["segments"])), "events", "%.1f s" % (time.time() - t))
if len(sys.argv) > 3 and sys.argv[3] == "0": sys.exit()
exe = check.build()
J = 8
def one(j): return j, check.validate(exe, num, m["segments"][j::J], os.environ.get("FOCUS", "ALL"), w + "/s%d" % j, 1)
with cf.ThreadPoolExecutor(J) as ex:
    for j, r in ex.map(one, range(min(J, len(m["segments"])))):
        for f in r.fails[:5]: print("shard", j, f)
        if r.broken: print("shard", j, "BROKEN", r.broken)
        if not r.fails and not r.broken: shutil.rmtree(w + "/s%d" % j)
print("%.1f s" % (time.time() - t))
