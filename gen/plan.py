"""Which families and models decide which property."""
from families import make as _make
import models
PLAN = {
 "C01": dict(families=[("environments", 40), ("owners", 24), ("mixed", 24), ("groupings", 8), ("islands", 16)]),
 "C02": dict(families=[("environments", 40), ("owners", 32), ("mixed", 32), ("planars", 4), ("groupings", 8), ("islands", 8)]),
 "C03": dict(families=[("environments", 30), ("owners", 12), ("groupings", 48), ("chains", 12), ("islands", 12)]),
 "C04": dict(families=[("environments", 24), ("groupings", 16), ("chains", 2), ("islands", 32), ("aggregates", 40)]),
 "C05": dict(families=[("environments", 48), ("groupings", 24)]),
 "C06": dict(families=[("attrs", 60), ("agents", 16), ("environments", 8), ("aggregates", 8), ("texts", 8), ("law", 8)]),
 "C07": dict(families=[("agents", 80), ("loops", 2), ("law", 8)]),
 "C08": dict(families=[("agents", 80)]),
 "C09": dict(families=[("poses", 80), ("attrs", 8), ("agents", 16)]),
 "C10": dict(families=[("levels", 60), ("covariance", 12), ("matrices", 12)]),
 "C11": dict(families=[("normals", 80)]),
 "C12": dict(families=[("outlines", 64), ("covariance", 8)]),
 "C13": dict(families=[("overlaps", 80)]),
 "C14": dict(families=[("paths", 64), ("hulls", 8)]),
 "C15": dict(families=[("hulls", 48), ("aggregates", 24)]),
 "C16": dict(families=[("hulls", 40), ("aggregates", 32)]),
 "C17": dict(families=[("weights", 80)]),
 "C18": dict(families=[("matrices", 64), ("weights", 8)]),
 "C19": dict(families=[("atsurface", 80), ("repulsion", 8)]),
 "C20": dict(families=[("law", 64), ("atsurface", 16), ("loops", 2)]),
 "C21": dict(families=[("sight", 64), ("law", 24)]),
 "C22": dict(families=[("covariance", 64)]),
 "C23": dict(families=[("repulsion", 64), ("law", 12)]),
 "C24": dict(families=[("degenerate", 64), ("law", 24), ("planars", 12)]),
 "C25": dict(families=[("planars", 80), ("sight", 8)]),
 "C26": dict(families=[("loops", 16)]),
 "C27": dict(families=[("numeric", 80)]),
 "C28": dict(families=[("drawing", 40)]),
 "C29": dict(families=[("figures", 64)]),
 "C30": dict(families=[("texts", 48), ("attrs", 16)]),
}
MODELS = {"C01": ["env", "env2", "envtwice"], "C02": ["env", "env2", "envflat"], "C03": ["env", "env4"], "C04": ["env", "env4"], "C05": ["env", "env4"]}
MODELS["C03"].append("agg"); MODELS["C03"].append("agg4")
MODELS.update({"C06": ["attr", "attrobs"], "C07": ["agent"], "C08": ["agent"], "C09": ["pose"], "C17": ["weights"], "C30": ["attr"]})
for _p in ("C10", "C11", "C18", "C19", "C20"): MODELS[_p] = ["law"]
MODELS["C22"] = ["pairs"]; MODELS["C20"].append("pairs")
MODELS.update({"C12": ["outline"], "C13": ["outline"], "C14": ["hull"], "C15": ["hull"], "C16": ["hull"], "C21": ["mode"], "C23": ["mode"], "C24": ["mode"],
               "C25": ["mode", "outline"], "C26": ["loop"]})
MODELS.update({"C27": ["num"], "C28": ["draw"], "C29": ["figure"], "C30": ["attr", "area"]})
for _p, _m in MODELS.items(): PLAN[_p]["models"] = _m
def make(fam, n, seed): return _make(fam, n, seed)
for _p in PLAN.values(): _p["families"] = [(f, n * 8) for f, n in _p["families"]]
def cost(seg): return sum(o["n"] // 3 if o["op"] == "loop" else 1 for o in seg) + 3
def level(pid): return "model_checking" if PLAN[pid].get("models") else "exploration"
run_model = models.run
