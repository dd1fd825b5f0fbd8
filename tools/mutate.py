#!/usr/bin/env python3
"""mutate.py SEED COUNT [FILE-PART]: how many small changes of the library does the specification notice?
Scratch copies of the library are changed one token at a time; each is driven through one corpus made of all families
and models, and its traces are checked against every clause (Focus ALL).  Survivors are listed for inspection."""
import os, random, re, shutil, subprocess, sys, time, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, HERE + "/gen"]
import check, models, plan, concurrent.futures as cf
from families import make
SEED, COUNT, PART = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else ""
ONLY = os.environ.get("ONLY")
WORK = check.BUILD + "/mutate"
SRC = "/repo"
SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"(?<![<\w]) < (?!<)", [" <= ", " > "]), (r" > ", [" >= ", " < "]),
         (r" <= ", [" < ", " > "]), (r" >= ", [" > ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"\+\+i\b", ["i += 2"]),
         (r"\(0\)", ["(1)"]), (r"\(1\)", ["(0)"]), (r"\(2\)", ["(1)"]), (r"\.first\b", [".second"]), (r"\.second\b", [".first"]),
         (r"(?<![\w.(\[])-(?=[\w(])", [""]), (r"(?<![\w.])(\d+\.\d+|\d+e-?\d+)(?![\w.])", ["(1.1*\\g<0>)", "0.0"]), (r"(?<![\w.])([1-9]\d*)(?![\w.])", ["(\\g<0>+1)"]),
         (r"std::min\b|\bmin\(", None), (r"\breturn ([^;]+);", ["return {};"]), (r"\bif ?\((.+)\)\s*$", ["if (!(\\1))"]), (r"\.inverse\(\)", [""]), (r"\.transpose\(\)", [""]),
         (r"\.normalized\(\)|\.normalize\(\)", [""]), (r"safety_margin", ["axis_lengths"]), (r"get_reference_position\(\)", ["get_position()"]), (r"get_position\(\)", ["get_reference_position()"]),
         (r"\bcontinue;|\bbreak;", [""]), (r"critical_distance", ["1.0"]), (r"weight_power", ["1.0"])]
def mutants():
    out = []
    files = sorted(f for f in glob.glob(SRC + "/src/**/*.cpp", recursive=True) + glob.glob(SRC + "/include/**/*.hpp", recursive=True)
                   if "matplotlibcpp" not in f and "Exception" not in f and PART in f)
    for f in files:
        lines = open(f).read().split("\n")
        for n, l in enumerate(lines):
            code = l.split("//")[0]
            if not code.strip() or code.strip().startswith(("#", "*", "/*", "namespace", "using", "class", "public", "private", "protected")): continue
            for pat, reps in SWAPS:
                if reps is None: continue
                for m in re.finditer(pat, code):
                    for rep in reps:
                        new = code[:m.start()] + m.expand(rep) + code[m.end():]
                        if new != code: out.append((f, n, l, new))
            s = code.strip()
            if f.endswith(".cpp") and s.endswith(";") and not s.startswith(("return", "}", "else")) and not re.match(r"(const |std::|Eigen::|unsigned|int|double|bool|auto|Pose|State|Agent)\S* .*=|[\w:<>]+ \w+;", s):
                out.append((f, n, l, code.replace(s, ";")))
    return out
def corpus():
    segs = []
    for fam in sorted({f for p in plan.PLAN.values() for f, _ in p["families"]}):
        segs += make(fam, 2 if fam in ("loops",) else 8, SEED)
    num = check.classes()
    for name in models.MODELS:
        m = models.MODELS[name]
        m["quick"] = m["quick"] and (m["quick"][0], 1200 if name not in ("loop", "draw") else 400)
        if m["quick"] is None: continue
        segs += models.run(name, "quick", SEED, lambda *a, **k: check.explore(WORK + "/m", *a, num=num, **k), check.CannotTell)["segments"]
    return segs
def build(d, exe_dir, f):
    """Only the changed file is compiled again; a changed header means everything."""
    check.REPO = d
    return check.build()
def main():
    shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
    all_ = mutants()
    random.Random(SEED).shuffle(all_)
    pick = [m for m in all_ if ONLY is None or "%s:%d" % (os.path.basename(m[0]), m[1] + 1) in ONLY.split(",")][:COUNT]
    print(len(all_), "mutants,", len(pick), "tried", flush=True)
    segs = corpus()
    num = check.classes()
    order = sorted(range(len(segs)), key=lambda k: -plan.cost(segs[k]))
    J = int(os.environ.get("JOBS", "8"))
    shards = [[] for _ in range(2 * J)]; load = [0] * len(shards)
    for k in order:
        j = load.index(min(load)); shards[j].append(segs[k]); load[j] += plan.cost(segs[k])
    print(len(segs), "segments", sum(load), "events", flush=True)
    killed = survived = skipped = 0
    for n, (f, line, old, new) in enumerate([(SRC + "/src/Agent.cpp", 0, None, None)] + pick):   # first the library as it is
        d = WORK + "/repo"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(SRC + "/src", d + "/src"); shutil.copytree(SRC + "/include", d + "/include")
        g = d + f[len(SRC):]
        t = open(g).read().split("\n"); t[line] = t[line] if new is None else new
        open(g, "w").write("\n".join(t))
        check.REPO = d
        t0 = time.time()
        try: exe = check.build()
        except check.CannotTell: skipped += 1; continue
        ex = cf.ThreadPoolExecutor(J)
        why = None
        futs = [ex.submit(check.validate, exe, num, s, "ALL", WORK + "/s%d" % j, 1) for j, s in enumerate(shards)]
        for q in cf.as_completed(futs):
            try: r = q.result()
            except check.CannotTell as e: why = "cannot tell " + str(e)[:200]; break
            if r.fails or r.broken: why = str(r.fails[0] if r.fails else r.broken)[:160]; break
        ex.shutdown(wait=True, cancel_futures=True)
        if new is None:
            if why: sys.exit("the library itself is rejected: " + why)
            print("the library itself passes  %.0f s" % (time.time() - t0), flush=True); continue
        where = "%s:%d" % (os.path.basename(f), line + 1)
        if why: killed += 1; print("killed   %s  %s  [%s] %.0f s" % (where, new.strip()[:90], why, time.time() - t0), flush=True)
        else: survived += 1; print("SURVIVED %s  %s   WAS  %s  %.0f s" % (where, new.strip()[:140], old.strip()[:140], time.time() - t0), flush=True)
    print("killed %d, survived %d, did not compile %d" % (killed, survived, skipped))
if __name__ == "__main__": main()
