"""The bounded exhaustive models and the scripts made from their behaviours.

A model is a TLA+ module that TLC explores completely within the bounds of its configuration, checking
the laws listed in it.  A graph model writes every transition out (Emit in Num.tla); walks that cover the
transitions become scripts.  A case model writes one script per initial state."""
import collections, json, random, re
EXPECT = {}
def _invs(kinds): return "".join("%s %s\n" % (k, " ".join(v)) for k, v in kinds)
# name: module, constants per tier, laws, and how many events to replay per tier (None: every transition)
MODELS = {
 "env":  dict(module="EnvModel", kind="graph",
              quick=('NObs = 3\nMovable = {"e2", "e3"}\nEnvs = {"E1"}\nRenames = {"e1"}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 30000),
              thorough=('NObs = 3\nMovable = {"e2", "e3"}\nEnvs = {"E1"}\nRenames = {"e1", "e3"}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 150000),
              invariants=["Registry", "Grouping", "OrderFree", "Partition"], properties=["Stable", "Follows"], view="view"),
 "env2": dict(module="EnvModel", kind="graph",
              quick=('NObs = 2\nMovable = {"e2"}\nEnvs = {"E1", "E2"}\nRenames = {}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 16000),
              thorough=('NObs = 2\nMovable = {"e2"}\nEnvs = {"E1", "E2"}\nRenames = {}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 150000),
              invariants=["Registry", "Grouping", "OrderFree", "Partition"], properties=["Stable", "Follows"], view="view"),
 "env4": dict(module="EnvModel", kind="graph",
              quick=('NObs = 4\nMovable = {}\nEnvs = {"E1"}\nRenames = {}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 30000),
              thorough=('NObs = 4\nMovable = {"e2", "e3", "e4"}\nEnvs = {"E1"}\nRenames = {}\nStart = TRUE\nToggled = TRUE\nTwice = FALSE', 150000),
              invariants=["Registry", "Grouping", "OrderFree", "Partition"], properties=["Stable", "Follows"], view="view"),
 "envflat": dict(module="EnvModel", kind="graph",
              quick=('NObs = 4\nMovable = {}\nEnvs = {"E1"}\nRenames = {}\nStart = FALSE\nToggled = FALSE\nTwice = FALSE', None),
              thorough=('NObs = 4\nMovable = {}\nEnvs = {"E1"}\nRenames = {"e1"}\nStart = FALSE\nToggled = FALSE\nTwice = FALSE', 150000),
              invariants=["Registry", "Grouping", "OrderFree", "Partition"], properties=["Stable", "Follows"], view="view"),
 "envtwice": dict(module="EnvModel", kind="graph",
              quick=('NObs = 2\nMovable = {}\nEnvs = {"E1"}\nRenames = {"e1", "e2"}\nStart = TRUE\nToggled = FALSE\nTwice = TRUE', None),
              thorough=('NObs = 3\nMovable = {}\nEnvs = {"E1"}\nRenames = {"e1", "e2", "e3"}\nStart = TRUE\nToggled = TRUE\nTwice = TRUE', 150000),
              invariants=["Registry"], properties=["Stable"], view="view"),
 "pose": dict(module="PoseModel", kind="graph", quick=('Bound = 1\nTurns = "all"', 30000), thorough=('Bound = 2\nTurns = "all"', 200000),
              invariants=["Rigid", "Associative", "Inverse", "Agrees"], view="view"),
 "attr": dict(module="AttrModel", kind="graph", quick=('Kind = "ell"\nFields = {"pos", "ori", "lin", "ang", "ref", "axis", "curv", "name"}', 30000),
              thorough=('Kind = "ell"\nFields = {"pos", "ori", "lin", "ang", "ref", "axis", "curv", "name"}', None), invariants=["Agrees"], view="view"),
 "attrobs": dict(module="AttrModel", kind="graph", quick=('Kind = "obs"\nFields = {"pos", "ori", "lin", "ang", "ref", "name"}', 12000),
              thorough=('Kind = "obs"\nFields = {"pos", "ori", "lin", "ang", "ref", "name"}', None), invariants=["Agrees"], view="view"),
 "agent": dict(module="AgentModel", kind="graph", quick=('Half1 = TRUE', 40000), thorough=('Half1 = FALSE', 200000),
              invariants=["Envelope", "Agrees"], view="view"),
 "agg":  dict(module="AggModel", kind="graph", cover="states", quick=('N = 4\nW = 3\nH = 2', 20000), thorough=('N = 5\nW = 3\nH = 2', None),
              invariants=["OrderFree", "Declared"], view="view"),
 "agg4": dict(module="AggModel", kind="graph", cover="states", quick=None, thorough=('N = 4\nW = 3\nH = 3', None),
              invariants=["OrderFree", "Declared"], view="view"),
 "law": dict(module="LawModel", kind="case", view="view",
             quick=('Shapes = {2, 3, 4, 5}\nTurns = {1, 2, 5}\nRefs = {1, 2}\nMotions = {1, 4}\nCrowds = {1, 3, 5}\nLevels = {1, 2, 4}\nPairs = FALSE', None),
             thorough=('Shapes = {1, 2, 3, 4, 5}\nTurns = {1, 2, 3, 4, 5, 6}\nRefs = {1, 2, 3}\nMotions = {1, 2, 3, 4}\nCrowds = {1, 2, 3, 4, 5}\nLevels = {1, 2, 3, 4, 5}\nPairs = FALSE', 150000),
             invariants=["OnLevel", "Derivative", "NoPenetration", "Covariant", "Permuted", "Scaled", "Bounded", "Galilean"], constrained=True),
 "pairs": dict(module="LawModel", kind="case", view="view",
             quick=('Shapes = {2, 3, 4, 5}\nTurns = {1, 2, 5}\nRefs = {1, 2}\nMotions = {1, 4}\nCrowds = {1, 3, 5}\nLevels = {1, 2, 4}\nPairs = TRUE', None),
             thorough=('Shapes = {1, 2, 3, 4, 5}\nTurns = {1, 2, 3, 4, 5, 6}\nRefs = {1, 2, 3}\nMotions = {1, 2, 3, 4}\nCrowds = {1, 2, 3, 4, 5}\nLevels = {1, 2, 3, 4, 5}\nPairs = TRUE', 150000),
             invariants=["Covariant", "Permuted", "Scaled"], constrained=True),
 "outline": dict(module="OutlineModel", kind="case", view="view", constrained=True,
             quick=('Firsts = {2, 3, 4}\nSeconds = {1, 4, 5}\nTurnsA = {20, 90}\nTurnsB = {0, 135, 70}\nOffsets = {0, 2, 9, 17, 24, 25, 30, 32, 39, 45}\nWalks = {1, 2}', 60000),
             thorough=('Firsts = {1, 2, 3, 4, 5}\nSeconds = {1, 2, 3, 4, 5}\nTurnsA = {20, 90}\nTurnsB = {0, 45, 135, 70}\nOffsets = 0..48\nWalks = {1, 2, 3}', 300000),
             invariants=["Witness", "Touch", "Symmetric", "Turned", "Margins", "Chords", "Middle"]),
 "hull": dict(module="HullModel", kind="case", view="view", constrained=True,
             quick=('Groups = {"pair", "twins", "triple", "ring", "open"}\nGaps = {1, 2, 3, 4}\nHeadings = {0, 47, 180}\nTurns = {0, 35}\nMinR = {"0.3"}\nKinds = {1, 2, 3}', 40000),
             thorough=('Groups = {"pair", "twins", "triple", "ring", "open"}\nGaps = {1, 2, 3, 4}\nHeadings = {0, 47, 90, 133, 180, 222, 270, 311}\nTurns = {0, 35, 90, 120}\nMinR = {"0.3", "0.9"}\nKinds = {1, 2, 3}', 300000),
             invariants=["Surfaces", "Beyond", "Minimum", "Order", "Spun", "Rings"]),
 "loop": dict(module="LoopModel", kind="case", view="view",
             quick=('Shapes = {2, 3, 4}\nTurns = {2, 3}\nRefs = {1, 2}\nStarts = {1, 2, 4}\nSides = {1, 3}\nWorlds = {1, 2, 3, 4}', None),
             thorough=('Shapes = {1, 2, 3, 4}\nTurns = {1, 2, 3, 4}\nRefs = {1, 2, 3}\nStarts = {1, 2, 3, 4, 5}\nSides = {1, 2, 3, 4}\nWorlds = {1, 2, 3, 4}', 8000),
             invariants=["Outside", "Arrives", "Bounded", "Singular"], properties=["Gentle"]),
 "mode": dict(module="ModeModel", kind="case", view="view", constrained=True,
             quick=('Scenes = {1, 2, 3, 4, 5}\nPlaces = {0, 3, 8, 11, 13, 16, 17, 18, 22, 24, 27, 31, 33, 36, 39}\nHeadings = {99, 0, 3, 5, 7, 10}\nMarg = {"0", "0.2"}', 40000),
             thorough=('Scenes = {1, 2, 3, 4, 5}\nPlaces = 0..41\nHeadings = {99, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}\nMarg = {"0", "0.05", "0.2", "0.5"}', 300000),
             invariants=["Local", "Seen", "Unseen", "Pushes", "Once", "Heading"]),
 "area": dict(module="AreaModel", kind="case",
             quick=('Axes = {"0.1", "0.4", "1", "2.5"}\nMargins = {"0", "0.3"}\nPoses = {1, 2}', None),
             thorough=('Axes = {"0.05", "0.1", "0.4", "1", "2.5", "8"}\nMargins = {"0", "0.05", "0.3"}\nPoses = {1, 2, 3}', None),
             invariants=["Between", "Round", "Ordered", "Scales", "Shadow", "Prolate", "Oblate", "Grows"]),
 "draw": dict(module="DrawModel", kind="case",
             quick=('Shapes = {1, 2, 3, 4}\nTurns = {0, 35, 120, 400}\nMargins = {1, 2, 3}\nRefs = {1, 2}\nNames = {"", "oak"}\nColors = {"k", "r"}', 2500),
             thorough=('Shapes = {1, 2, 3, 4}\nTurns = {0, 35, 90, 120, 200, 275, 400, 520}\nMargins = {1, 2, 3}\nRefs = {1, 2}\nNames = {"", "oak", "a b"}\nColors = {"k", "r", "b"}', 20000),
             invariants=["Right", "Free", "Missing", "Wrong", "Partial", "Marks"]),
 "figure": dict(module="FigureModel", kind="case", constrained=True,
             quick=('Lists = {1, 2, 3, 4, 6}\nKinds = {"plain", "config", "guard"}\nHists = {1, 3}\nFiles = {"", "fig"}', None),
             thorough=('Lists = {1, 2, 3, 4, 5, 6, 7}\nKinds = {"plain", "config", "guard"}\nHists = {1, 2, 3, 4}\nFiles = {"", "fig", "run_7", "a.b"}', None),
             invariants=["Protocol", "Right", "Early", "Left", "Repeated", "Drawn", "Order"], properties=["Ends"]),
 "num": dict(module="NumModel", kind="case", constrained=True,
             quick=('Counts = {0, 1, 2, 3, 4, 5, 7, 12, 33}\nBounds = {"-3", "0", "0.1", "7", "1e6", "-1e-9"}\nCells = {1, 2, 3, 6}\nCoords = {"0", "1", "-1", "3.7", "-2e-9", "-1e5"}\nCols = 3', None),
             thorough=('Counts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 33, 50, 101, 500}\nBounds = {"-3", "0", "0.1", "7", "1e6", "-1e-9", "-0.7", "2.5"}\nCells = {0, 1, 2, 3, 6, 9}\nCoords = {"0", "1", "-1", "3.7", "-2e-9", "-1e5", "1e-5", "-0.3", "64"}\nCols = 5', None),
             invariants=["Spacings", "Grids", "Polars", "Sharp", "Carts", "Sorts"]),
 "weights": dict(module="WeightsModel", kind="case", quick=('MaxLen = 3', 40000), thorough=('MaxLen = 4', None),
              invariants=["Distribution", "Monotone", "Equal", "Critical"]),
}
def run(name, tier, seed, tlc, CannotTell):
    m = MODELS[name]
    if m[tier] is None: return None
    consts, budget = m[tier]
    consts = re.sub(r"= (\d+)\.\.(\d+)", lambda g: "= {%s}" % ", ".join(map(str, range(int(g[1]), int(g[2]) + 1))), consts or "")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + ("CONSTANTS\n%s\n" % consts if consts else "")
    cfg += "".join("INVARIANT %s\n" % i for i in m.get("invariants", [])) + "".join("PROPERTY %s\n" % i for i in m.get("properties", []))
    if m.get("view"): cfg += "VIEW %s\n" % m["view"]
    if m["kind"] == "graph" or m.get("constrained"): cfg += "ACTION_CONSTRAINT Written\n"
    code, text, lines = tlc(m["module"], cfg, heap=m.get("heap", "6g"), workers=8, timeout=700)
    if "No error has been found" not in text: raise CannotTell("the model %s fails its own laws:\n%s" % (name, text[-3000:]))
    g = [re.match(r"(\d+) states generated, (\d+) distinct", l) for l in text.splitlines()]
    g = [x for x in g if x][-1]
    out = {"model": m["module"], "configuration": " ".join(consts.split("\n")), "transitions": int(g.group(1)), "states": int(g.group(2)),
           "laws": m.get("invariants", []) + m.get("properties", [])}
    if m["kind"] == "graph": segs, total, done = walks(lines, budget, seed, name, m.get("cover"))
    else: segs, total, done = cases(lines, budget, seed, name)
    out.update(segments=segs, transitions_written=total, transitions_replayed=done, replayed_exhaustively=total == done)
    return out
def cases(lines, budget, seed, name):
    segs = []
    for n, l in enumerate(sorted(l for l in lines if l.startswith("SEG|"))):
        ops = json.loads(l[4:])
        if ops[0]["op"] != "reset": ops.insert(0, {"op": "reset"})
        ops[0]["id"] = "%s%d" % (name, n)
        segs.append(ops)
    total = len(segs)
    if budget is not None:
        random.Random(seed).shuffle(segs)
        k, n = 0, 0
        while k < len(segs) and n < budget: n += len(segs[k]); k += 1
        segs = segs[:k]
    return segs, total, len(segs)
def walks(lines, budget, seed, name, cover=None, longest=60):
    """Walks from the initial state that together cover the transitions (as many as the budget allows)."""
    r = random.Random(seed)
    ids, out, init, setup = {}, collections.defaultdict(dict), [], {}
    def key(v): return ids.setdefault(json.dumps(v, sort_keys=True), len(ids))
    for l in sorted(lines):
        if l.startswith("I|"):
            v = json.loads(l[2:]); k = key(v[0])
            if k not in setup: init.append(k); setup[k] = v[1]
        elif l.startswith("T|"):
            a, ops, b = json.loads(l[2:])
            out[key(a)][json.dumps(ops, sort_keys=True)] = key(b)
    todo = {k: set(v) for k, v in out.items()}
    if cover == "states":   # one transition into every state is enough
        into = {}
        for k in out:
            for o, t in out[k].items(): into.setdefault(t, (k, o))
        pick = set(into.values())
        todo = {k: {o for o in v if (k, o) in pick} for k, v in out.items()}
    total = left = sum(len(v) for v in todo.values())
    order = {k: r.sample(sorted(v), len(v)) for k, v in out.items()}
    # distance to a state with something left to do, recomputed when a walk runs dry
    def path(s):
        seen, q = {s: None}, collections.deque([s])
        while q:
            x = q.popleft()
            if todo.get(x):
                p = []
                while seen[x] is not None: p.append((seen[x][1], x)); x = seen[x][0]
                return p[::-1]
            for o in order.get(x, ()):
                y = out[x][o]
                if y not in seen: seen[y] = (x, o); q.append(y)
        return None
    segs, events = [], 0
    while left and (budget is None or events < budget):
        progress = False
        s = init[len(segs) % len(init)]
        ops = [dict(o) for o in setup[s]]
        ops[0]["id"] = "%s%d" % (name, len(segs))
        steps = 0
        while steps < longest and left:
            if todo.get(s):
                fresh = [o for o in order[s] if o in todo[s]]
                # prefer a transition that leads somewhere with more to do
                o = max(fresh[:6], key=lambda o: (len(todo.get(out[s][o], ())), o)) if r.random() < .5 else r.choice(fresh[:6])
                todo[s].discard(o); left -= 1; progress = True
                ops += json.loads(o); s = out[s][o]; steps += 1
                continue
            p = path(s)
            if p is None or (steps and steps + len(p) > longest): break
            for o, s2 in p: ops += json.loads(o)
            s = p[-1][1] if p else s
            steps += len(p)
        if not progress:
            dead = [k for k in init if path(k) is None]
            if len(dead) == len(init): break
            longest += 20
            continue
        segs.append(ops); events += len(ops)
    return segs, total, total - left
