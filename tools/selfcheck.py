#!/usr/bin/env python3
"""selfcheck.py: the Java versions of Geom.tla's operators against their TLA+ definitions.
GeomModel is explored with and without Geom.class on the class path; everything it emits must be equal, bit for bit."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, HERE + "/gen"]
import check
num = check.classes()
w = check.BUILD + "/selfcheck"
shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/plain")
for f in os.listdir(num):
    if not f.startswith("Geom"): shutil.copy(os.path.join(num, f), w + "/plain")
cfg = sys.argv[1] if len(sys.argv) > 1 else open(HERE + "/spec/GeomModel.tla").read().split("\\* cfg: ")[1].split("\n")[0].replace("; ", "\n") + "\n"
seen = []
for n, c in (("fast", num), ("plain", w + "/plain")):
    code, text, lines = check.explore(w + "/" + n + "-run", "GeomModel", cfg, num=c, heap="6g", workers=8, timeout=3000)
    if "No error has been found" not in text: sys.exit(text[-2000:])
    if ("Loading VAdd operator override" in text) != (n == "fast"): sys.exit("the overrides of Geom were not as intended")
    seen.append(sorted(lines))
    print(n, len(lines), "values", [l for l in text.splitlines() if "distinct states found" in l][-1])
shutil.rmtree(w)
if seen[0] != seen[1]: sys.exit("Geom.java differs from Geom.tla: %s" % next((a, b) for a, b in zip(*seen) if a != b)[0][:300])
print("Geom.java and Geom.tla agree")
