#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree (see DESIGN.md)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "gen"))
REPO = os.environ.get("DOA_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
class CannotTell(Exception):
    """The check could not be carried out (exit code 2)."""

# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as s: h.update(s.read())
            h.update(b"\0")
    return h.hexdigest()[:20]
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build():
    """The driver, linked with the library as it is in the working tree."""
    flags = ("-std=c++14 -O1 -g0 -w -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -I%s/include -I/usr/include/eigen3 "
             "-isystem /usr/lib/python3/dist-packages/numpy/core/include" % REPO)
    drv = [os.path.join(HERE, "driver", f) for f in ("exec.cpp", "json.hpp")]
    key = tree_hash([REPO + "/src", REPO + "/include"] + drv) + hashlib.sha256(flags.encode()).hexdigest()[:6]
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, "doa")
    if os.path.exists(exe) and os.path.getsize(exe): return exe
    shutil.rmtree(out, ignore_errors=True)
    tmp = out + ".%d" % os.getpid()
    os.makedirs(tmp)
    try:
        pyc = sh("python3-config --includes").stdout.strip()
        pyl = sh("python3-config --embed --ldflags").stdout.strip()
        srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + [drv[0]]
        cmds = [("g++ %s %s -c %s -o %s/%d.o" % (flags, pyc, s, tmp, n)) for n, s in enumerate(srcs)]
        order = sorted(cmds, key=lambda c: "exec.cpp" not in c)
        with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(sh, order))
        for r in rs:
            if r.returncode: raise CannotTell("the library or the driver does not compile:\n" + r.stdout[-3000:])
        r = sh("g++ %s/*.o -o %s/doa %s && rm -f %s/*.o" % (tmp, tmp, pyl, tmp))
        if r.returncode: raise CannotTell("the driver does not link:\n" + r.stdout[-3000:])
        try: os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe): raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for d in sorted(glob.glob(BUILD + "/*/doa"), key=os.path.getmtime)[:-3]: shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return exe
def classes():
    """The Java implementation of the arithmetic of Num.tla, and the fast one of Geom.tla's vectors."""
    key = tree_hash([HERE + "/spec/Num.java", HERE + "/spec/Geom.java"])
    out = os.path.join(BUILD, "num-" + key)
    if not os.path.exists(out + "/Num.class"):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp)
        r = sh("javac -d %s -cp %s %s/spec/Num.java %s/spec/Geom.java" % (tmp, CP, HERE, HERE))
        if r.returncode: raise CannotTell("Num.java does not compile:\n" + r.stdout)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

# ------------------------------------------------------------------ TLC
FATAL = re.compile(r"OutOfMemory|StackOverflow|insufficient memory|No space left|There is not enough memory|Could not reserve|Parsing or semantic analysis failed|"
                   r"Unknown location|Could not find or load|Unable to access jarfile")
def tlc(dirname, module, cfg, num, heap="2g", timeout=800, workers=1, extra=()):
    """Run TLC in a scratch directory that holds the specification."""
    os.makedirs(dirname, exist_ok=True)
    for f in glob.glob(HERE + "/spec/*.tla"): shutil.copy(f, dirname)
    with open(dirname + "/M.cfg", "w") as s: s.write(cfg)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + dirname,
           "-cp", "%s:%s" % (num, CP), "tlc2.TLC", "-config", "M.cfg", "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=dirname, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CannotTell("TLC did not finish %s within %d s" % (module, timeout))
    return r.returncode, r.stdout
def explore(dirname, module, cfg, num, **kw):
    """Run TLC on a model and collect what it emits."""
    code, text = tlc(dirname, module, cfg, num, **kw)
    f = dirname + "/emitted"
    lines = open(f).read().splitlines() if os.path.exists(f) else []
    shutil.rmtree(dirname, ignore_errors=True)
    return code, text, lines

# ------------------------------------------------------------------ recording and validating
class Result:
    """What the specification says about one recorded trace."""
    def __init__(self): self.fails, self.known, self.other, self.marks, self.events, self.states, self.broken, self.trace = [], [], [], {}, 0, 0, None, None
def record(exe, script, out, log, seed):
    env = dict(os.environ, DOA_PLOTLOG=log, PYTHONPATH=os.path.join(HERE, "driver", "fakeplt"), PYTHONDONTWRITEBYTECODE="1", MALLOC_PERTURB_="165")
    why = None
    try:
        r = subprocess.run(["prlimit", "--as=6000000000", "--core=0", exe, script, out, str(seed)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        if r.returncode == 4: raise CannotTell("script error: " + r.stderr.decode(errors="replace")[-500:])
        if not os.path.exists(out): raise CannotTell("the driver recorded nothing")
        if r.returncode not in (0, 3): why = "the process ended with %d" % r.returncode
    except subprocess.TimeoutExpired:
        why = "the call did not return"
    if why is not None: # the trace ends where the process did
        lines = open(out, "rb").read().split(b"\n") if os.path.exists(out) else []
        good = []
        for l in lines:
            try: json.loads(l)
            except ValueError: continue
            good.append(l)
        good.append(json.dumps({"op": "crash", "a": {"why": why}, "x": "", "r": 0, "ch": {}}).encode())
        with open(out, "wb") as s: s.write(b"\n".join(good) + b"\n")
def validate(exe, num, segs, focus, where, seed):
    """Execute segments in the real library and check the recorded trace against TraceDOA."""
    os.makedirs(where, exist_ok=True)
    script, out = where + "/script.jsonl", where + "/trace.ndjson"
    with open(script, "w") as s:
        for ops in segs:
            for o in ops: s.write(json.dumps(o, separators=(",", ":")) + "\n")
    if os.path.exists(out): os.remove(out)
    record(exe, script, out, where + "/plots.log", seed)
    cfg = 'SPECIFICATION Spec\nCONSTANTS Focus = "%s"\nFile = "%s"\nINVARIANT Holds\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n' % (focus, out)
    res = Result()
    for heap in ("2g", "6g"):
        code, text = tlc(where, "TraceDOA", cfg, num, heap=heap)
        res.fails, res.known, res.other = [], [], []
        for l in text.splitlines():
            m = re.match(r'"?(FAIL|KNOWN|OTHER)\|(\d+)\|([^|]*)\|(.*?)"?$', l)
            if m: {"FAIL": res.fails, "KNOWN": res.known, "OTHER": res.other}[m.group(1)].append((int(m.group(2)), m.group(3), m.group(4)))
            if l.startswith("MARKS "): res.marks = {int(k): int(v) for k, v in (x.split(":") for x in l[6:].split())}
            m = re.match(r"(\d+) states generated, (\d+) distinct", l)
            if m: res.states = int(m.group(2))
        if res.fails or "No error has been found" in text: break
        if FATAL.search(text):
            if heap == "6g": raise CannotTell("TLC failed:\n" + text[-3000:])
            continue
        res.broken = " ".join(text.split("Error:", 1)[-1].split())[:600]
        break
    res.trace = out
    return res
def seg_of(path, line):
    """The index of the segment an event of a trace belongs to."""
    n = -1
    with open(path) as s:
        for k, l in enumerate(s, 1):
            if '"op":"reset"' in l: n += 1
            if k == line: return max(n, 0)
    return max(n, 0)

def known_findings():
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(C\d\d) (.*)$", l.strip())
            if m: out.append((m.group(1), m.group(2)))
    return out

# ------------------------------------------------------------------ the check
def main():
    import plan
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(work)
    try: return run(plan, pid, tier, seed, t0, work)
    except CannotTell as e:
        print("cannot tell: %s" % e); return 2
    finally: shutil.rmtree(work, ignore_errors=True)

def run(plan, pid, tier, seed, t0, work):
    p = plan.PLAN[pid]
    listed = [l for q, l in known_findings() if q == pid]
    with cf.ThreadPoolExecutor(2) as ex:
        fb, fn = ex.submit(build), ex.submit(classes)
        exe, num = fb.result(), fn.result()
    tb = time.time()
    # bounded exhaustive models; their behaviours are replayed below
    models, segs = [], []
    for name in p.get("models", []):
        m = plan.run_model(name, tier, seed, lambda *a, **k: explore(os.path.join(work, "m-" + name), *a, num=num, **k), CannotTell)
        if m is None: continue
        models.append(m)
        segs += m["segments"]
    for fam, n in p["families"]:
        segs += plan.make(fam, n if tier == "quick" else n * p.get("times", 12), seed)
    # longest first, dealt out evenly
    order = sorted(range(len(segs)), key=lambda k: (-plan.cost(segs[k]), k))
    rounds = max(1, -(-sum(plan.cost(s) for s in segs) // (SHARDS * 4000)))
    shards = [[] for _ in range(min(SHARDS * rounds, len(segs)))]
    load = [0] * len(shards)
    for k in order:
        j = load.index(min(load)); shards[j].append(k); load[j] += plan.cost(segs[k])
    shards = [[segs[k] for k in sorted(s)] for s in shards]
    notes, marks, events, states, validated, distinct, samples = [], 0, 0, 0, 0, set(), []
    known = {}
    def one(j):
        w = "%s/s%d" % (work, j)
        return j, validate(exe, num, shards[j], pid, w, seed)
    violation = None
    ex = cf.ThreadPoolExecutor(SHARDS)
    futs = [ex.submit(one, j) for j in range(len(shards))]
    try:
        for f in cf.as_completed(futs):
            j, res = f.result()
            states += res.states
            if not res.fails and not res.broken:
                validated += len(shards[j])
                with open(res.trace) as s:
                    for k, l in enumerate(s, 1):
                        events += 1
                        if k in res.marks:
                            marks += res.marks[k]
                            d = hashlib.sha1(l[:4000].encode()).hexdigest()
                            if d not in distinct:
                                distinct.add(d)
                                if len(samples) < 5 and len(l) < 1500 and len(distinct) % 7 == 1: samples.append(json.loads(l))
            for line, op, label in res.known:
                if label[:3] == pid:
                    if label[4:] in listed:
                        known.setdefault(label[4:], (j, line))
                    else: res.fails.append((line, op, label[4:]))
            if res.fails or res.broken:
                violation = confirm(exe, num, shards[j], pid, "%s/c%d" % (work, j), seed, res, listed, notes)
                if violation: break
            shutil.rmtree("%s/s%d" % (work, j), ignore_errors=True)
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    for label in sorted(known): print("KNOWN-FINDING: property=%s %s" % (pid, label))
    cov = {"evaluations": marks, "distinct_nontrivial": len(distinct),
           "rule": "an evaluation is one clause of this property in TraceDOA.tla evaluated on one recorded event of the real library; an event is "
                   "non-trivial when at least one clause of this property applied to it, and distinct when its operation, arguments, answer or effects differ",
           "events_recorded": events, "segments_validated": validated, "segments": len(segs),
           "families": [[f, n if tier == "quick" else n * p.get("times", 12)] for f, n in p["families"]],
           "trace_states": states, "samples": samples, "exhaustive": False}
    if models:
        cov.update(states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
                   traces_validated_against_impl=validated, models=[{k: v for k, v in m.items() if k != "segments"} | {"behaviours_replayed": len(m["segments"])} for m in models])
        if not samples: cov["samples"] = [m["segments"][0] for m in models if m["segments"]][:1]
    if notes: cov["unrepeated_rejections"] = notes
    if not cov["samples"]: cov["samples"] = [segs[0][:6]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": plan.level(pid), "coverage": cov,
          "assumptions": ["IEEE doubles on both sides; clauses compare with a tolerance",
                          "the matplotlib bindings are replaced by a recording stand-in",
                          "the driver reports calls, answers and attributes through the public API only"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as s: json.dump(ev, s, indent=1)
    if violation:
        print(violation["text"])
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        return 1
    print("%s %s: %d clauses on %d events of %d segments%s hold (build %.0f s, total %.0f s)" % (
        pid, tier, marks, events, validated, "".join(", %s %d states" % (m["model"], m["states"]) for m in models), tb - t0, time.time() - t0))
    return 0

def confirm(exe, num, segs, pid, where, seed, res, listed, notes):
    """A rejection counts when a second run repeats it, first on the segment alone, then on the whole shard."""
    if res.fails: line, op, label = res.fails[0]
    else: line, op, label = 10 ** 9, "?", "the recorded trace is not a behaviour of the specification: " + res.broken
    k = seg_of(res.trace, line)
    for tag, some in (("segment", [segs[min(k, len(segs) - 1)]]), ("shard", segs)):
        r = validate(exe, num, some, pid, where + tag, seed)
        f = r.fails + [(a, b, c[4:]) for a, b, c in r.known if c[:3] == pid and c[4:] not in listed]
        if f or r.broken:
            if f: line, op, label = f[0]
            else: label = "the recorded trace is not a behaviour of the specification: " + r.broken
            d = "%s/replays/%s" % (HERE, pid)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            shutil.copy(where + tag + "/script.jsonl", d + "/script.jsonl")
            shutil.copy(where + tag + "/trace.ndjson", d + "/trace.ndjson")
            try: ev = open(r.trace).read().split("\n")[line - 1][:1500] if f else ""
            except IndexError: ev = ""
            text = "event %s (%s): %s\n%s" % (line if f else "-", op, label, ev)
            with open(d + "/README", "w") as s:
                s.write("%s\n\nscript.jsonl: the operations; trace.ndjson: what the library did.\nRe-run: python3 /verif/replay.py %s %s/script.jsonl\n" % (text, pid, d))
            return {"text": text, "replay": d}
    notes.append("%s %s %s" % (line, op, label))
    return None

if __name__ == "__main__":
    sys.exit(main())
