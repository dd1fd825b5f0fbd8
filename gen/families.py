"""Families of operation scripts.  Every function returns one script segment."""
from base import *

# ================================================================ poses, states, attributes
def poses(r, k):
    b = B(r, "poses%d" % k)
    kinds = ["def", "pos", "xyz", "pq", "xyzq"]
    hs = []
    def v():
        return vec(r) if r.random() < .8 else vec(r, 1e5)
    def new():
        h = b.h("P")
        kd = r.choice(kinds + (["copy"] if hs else []))
        kw = {}
        if kd in ("pos", "xyz", "pq", "xyzq"): kw["v"] = v()
        if kd in ("pq", "xyzq"): kw["q"] = quat(r)
        if kd == "copy": kw["s"] = r.choice(hs)
        b.op("pose.new", h=h, kind=kd, **kw)
        hs.append(h)
    for _ in range(3): new()
    for _ in range(22):
        c = r.random()
        h = r.choice(hs)
        if c < .08: new()
        elif c < .2: b.op("pose.mulassign", h=h, s=r.choice(hs))
        elif c < .27: b.op("pose.mulassign", h=h, s=h)
        elif c < .42:
            d = r.choice(hs + [b.h("P")])
            b.op("pose.mul", h=d, s=h, t=r.choice(hs))
            if d not in hs: hs.append(d)
        elif c < .57:
            d = r.choice(hs + [b.h("P")])
            b.op("pose.inv", h=d, s=h)
            if d not in hs: hs.append(d)
        elif c < .65: b.op("pose.set_orientation", h=h, q=quat(r))
        elif c < .72: b.op(r.choice(["pose.set_position", "pose.set_position3"]), h=h, v=v())
        else: b.op("pose.apply", h=h, v=v())
    # the group laws, on computed poses
    p, q, s = r.choice(hs), r.choice(hs), r.choice(hs)
    x = vec(r)
    b.op("pose.inv", h="I", s=p); b.op("pose.mul", h="L", s="I", t=p); b.op("pose.mul", h="R", s=p, t="I")
    b.op("pose.apply", h="L", v=x); b.op("pose.apply", h="R", v=x)
    b.op("pose.mul", h="PQ", s=p, t=q); b.op("pose.mul", h="PQ_S", s="PQ", t=s)
    b.op("pose.mul", h="QS", s=q, t=s); b.op("pose.mul", h="P_QS", s=p, t="QS")
    b.op("pose.apply", h="PQ_S", v=x); b.op("pose.apply", h="P_QS", v=x)
    b.op("pose.print", h=p)
    # tiny vectors, in a frame at the origin
    b.op("pose.new", h="T", kind="pq", v=r.choice([Z, mul(10 ** r.uniform(-9, -3), gvec(r))]), q=quat(r))
    for _ in range(2): b.op("pose.apply", h="T", v=mul(10 ** r.uniform(-9, -2), gvec(r)))
    b.op("pose.new", h="T2", kind="pq", v=mul(10 ** r.uniform(-9, -3), gvec(r)), q=quat(r))
    b.op("pose.mul", h="T3", s="T", t="T2"); b.op("pose.inv", h="T4", s="T2")
    return b

def obstacle_ctor(b, r, h, op, states):
    kd = r.choice(["name", "xyz"] + (["state", "sref"] if states else []))
    kw = {}
    if r.random() < .85: kw["name"] = r.choice(WORDS if r.random() < .8 else ODD)
    else: kw["name"] = ""
    if kd == "xyz": kw["v"] = vec(r)
    if kd in ("state", "sref"): kw["s"] = r.choice(states)
    if kd == "sref": kw["ref"] = vec(r)
    m = margin(r)
    if isinstance(m, list): kw["m3"] = m
    elif m is not None: kw["m"] = m
    b.op(op, h=h, kind=kd, **kw)

def query(b, r, h, ag):
    """A question that must not change anything."""
    c = r.randrange(13)
    e = h.startswith("e")
    if c == 0: b.op("q.dist", h=h, v=vec(r))
    elif c == 1: b.op("q.dist_agent", h=h, a=ag)
    elif c == 2 and e: b.op("q.normal", h=h, a=ag)
    elif c == 3: b.op("q.inside", h=h, v=vec(r))
    elif c == 4 and e: b.op("q.sample", h=h, n=r.randint(2, 30), sm=r.random() < .5)
    elif c == 5 and e: b.op("q.chord", h=h, v=vec(r), w=vec(r))
    elif c == 6 and e: b.op("q.repv", h=h, a=ag)
    elif c == 7 and e: b.op("q.genrep", h=h, a=ag)
    elif c == 8 and e: b.op("q.area", h=h, sm=r.random() < .5)
    elif c == 9: b.op("q.closed", h=h)
    elif c == 10: b.op("q.print", h=h)
    elif c == 11 and e: b.op("mod.matrix", o=h, a=ag)
    elif c == 12 and e: b.op("agent.in_obs", h=ag, o=h)

def attrs(r, k):
    b = B(r, "attrs%d" % k)
    ps, ss, obs = [], [], []
    for _ in range(2):
        h = b.h("P")
        b.op("pose.new", h=h, kind="pq", v=vec(r), q=quat(r))
        ps.append(h)
    for _ in range(4):
        h = b.h("S")
        kd = r.choice(["def", "pose", "xyz", "pos", "pq", "full", "full"] + (["copy"] if ss else []))
        kw = {}
        if kd == "pose": kw["p"] = r.choice(ps)
        if kd in ("xyz", "pos", "pq", "full"): kw["v"] = vec(r)
        if kd in ("pq", "full"): kw["q"] = quat(r)
        if kd == "full": kw.update(lin=vec(r), ang=vec(r))
        if kd == "copy": kw["s"] = r.choice(ss)
        b.op("state.new", h=h, kind=kd, **kw)
        ss.append(h)
    b.op("agent.new", h="a1", kind="state", s=r.choice(ss), m=r.uniform(0, 1))
    for _ in range(2):
        h = b.h("o"); obstacle_ctor(b, r, h, "obs.new", ss); obs.append(h)
    for _ in range(4):
        h = b.h("e"); obstacle_ctor(b, r, h, "ell.new", ss); obs.append(h)
    def positive(): return [abs(real(r)) + .05 for _ in range(3)] if r.random() < .85 else [0.0, abs(real(r)), 1.0]
    for _ in range(26):
        c = r.random()
        h = r.choice(obs)
        if c < .1:
            s = r.choice(ss)
            o = r.choice(["state.set_pose", "state.set_position", "state.set_position3", "state.set_orientation", "state.set_lin", "state.set_ang"])
            b.op(o, h=s, **({"p": r.choice(ps)} if o == "state.set_pose" else {"q": quat(r)} if o == "state.set_orientation" else {"v": vec(r)}))
        elif c < .18:
            es = [x for x in obs if x.startswith("e")]
            d = b.h("e")
            b.op("ell.new", h=d, kind="copy", src=r.choice(es))
            obs.append(d)
        elif c < .22:
            o = r.choice(["pose.set_position", "pose.set_orientation"])
            b.op(o, h=r.choice(ps), **({"q": quat(r)} if o.endswith("tion") and "orient" in o else {"v": vec(r)}))
        elif c < .3: b.op("o.set_pose", h=h, p=r.choice(ps))
        elif c < .38: b.op(r.choice(["o.set_position", "o.set_position3"]), h=h, v=vec(r))
        elif c < .44: b.op("o.set_orientation", h=h, q=quat(r))
        elif c < .5: b.op("o.set_lin", h=h, v=vec(r))
        elif c < .56: b.op("o.set_ang", h=h, v=vec(r))
        elif c < .62: b.op("o.set_ref", h=h, v=vec(r))
        elif c < .66: b.op("o.set_name", h=h, name=r.choice(WORDS + [""] if r.random() < .8 else ODD))
        elif c < .72 and h.startswith("e"): b.op("o.set_axis", h=h, v=positive())
        elif c < .78 and h.startswith("e"): b.op("o.set_curv", h=h, v=curvature(r))
        elif c < .84:
            b.op(r.choice(["agent.set_orientation"]), h="a1", q=quat(r))
        else: query(b, r, h, "a1")
    if r.random() < .5:   # any curvature is kept as it is given; distances are only asked where it is a whole number
        es = [x for x in obs if x.startswith("e")]
        h = r.choice(es)
        b.op("o.set_curv", h=h, v=[r.choice([1.5, .5, r.uniform(.1, 3), 10 ** r.uniform(-2, 2)]) for _ in range(3)])
        d = b.h("e")
        b.op("ell.new", h=d, kind="copy", src=h)
        b.op("o.set_axis", h=h, v=positive())
        b.op("o.set_curv", h=r.choice(es), v=curvature(r))
    # margins of either sign are kept as they are given
    h = b.h("e")
    obstacle_ctor(b, r, h, "ell.new", ss)
    last = b.ops[-1]
    last.pop("m", None)
    last["m3"] = [r.choice([-1, -1, 1]) * r.uniform(0, .4) for _ in range(3)]
    if r.random() < .3: del last["m3"]; last["m"] = -r.uniform(0, .4)
    b.op("ell.new", h=b.h("e"), kind="copy", src=h)
    o = dict(last, op="obs.new", h=b.h("o"))
    b.ops.append(o)
    b.op("o.set_axis", h=h, v=[1.0 + abs(real(r)) for _ in range(3)])
    b.op("q.print", h=h)
    for s in ss[:2]: b.op("state.print", h=s)
    return b

# ================================================================ agents
def agents(r, k):
    b = B(r, "agents%d" % k)
    ag, ps, ss = [], [], []
    def vel():
        c = r.random()
        if c < .15: return Z
        if c < .25: return [0.0, 0.0, r.choice([1.0, -2.0, 0.3])]
        if c < .4: return mul(r.uniform(.01, 3), dir2(r))
        if c < .45: return mul(1e-3, gvec(r))
        return gvec(r)
    def mg():
        return r.choice([0.0, 0.05, 0.1, 0.1000001, 0.2, 1.0, -0.3, r.uniform(0, 2)])
    for _ in range(3):
        ps.append(b.pose(Z if r.random() < .25 else vec(r), yaw(r.choice([-1, 1]) * 10 ** -r.uniform(.5, 6)) if r.random() < .2 else quat(r)))
    for _ in range(2):
        ss.append(b.state(vec(r), quat(r), vel(), vec(r)))
    def new():
        h = b.h("a")
        kd = r.choice(["def", "state", "state"] + (["copy", "copy"] if ag else []))
        kw = {}
        if kd == "state": kw["s"] = r.choice(ss)
        if kd == "copy": kw["src"] = r.choice(ag)
        elif r.random() < .6: kw["m"] = mg()
        b.op("agent.new", h=h, kind=kd, **kw)
        ag.append(h)
    new(); new()
    for _ in range(26):
        c = r.random()
        h = r.choice(ag)
        if c < .1: new()
        elif c < .22: b.op("agent.assign", h=h, src=r.choice(ag))
        elif c < .25 and len(ag) > 2:
            ag.remove(h)
            b.op("agent.drop", h=h)
        elif c < .34: b.op("agent.set_margin", h=h, m=mg())
        elif c < .42: b.op("agent.set_pose", h=h, p=r.choice(ps))
        elif c < .52: b.op("agent.set_position", h=h, v=vec(r))
        elif c < .58: b.op("agent.set_orientation", h=h, q=quat(r))
        elif c < .7: b.op("agent.set_lin", h=h, v=vel())
        elif c < .75: b.op("agent.set_ang", h=h, v=vec(r))
        elif c < .84: b.op("agent.transform", h=h, p=r.choice(ps))
        elif c < .93:
            d = b.h("a")
            b.op("agent.transformed", h=d, src=h, p=r.choice(ps))
            ag.append(d)
        elif c < .96: b.op("state.set_lin", h=r.choice(ss), v=vel())
        elif c < .98: b.op("pose.set_position", h=r.choice(ps), v=vec(r))
        else: b.op("agent.print", h=h)
    return b

# ================================================================ distance value and normal
def levels(r, k):
    b = B(r, "levels%d" % k)
    for _ in range(2):
        v, q, ax, m, cu = vec(r), quat(r), sized(r), margin(r), curvature(r)
        if r.random() < .15: ax[r.randrange(3)] = 0.0
        if r.random() < .1: ax[r.randrange(3)] = r.choice([1e-5, 2e-4, 20.0])
        e = b.ell("x", v, q, ax, cu, m=m)
        if r.random() < .3:   # a copy answers alike
            d = b.h("e")
            b.op("ell.new", h=d, kind="copy", src=e)
            e = d
        at = surface(v, q, ax, m)
        a = b.agent(vec(r), m=r.choice([None, 0.0, .3, r.uniform(0, 1)]))
        for _ in range(9):
            c = r.random()
            p = at(direction(r), r.choice([1.0, .5, 1.5, 3.0, r.uniform(.05, 6), 10 ** r.uniform(-3, 2)])) if c < .6 else vec(r, 6)
            if c > .93: p = v
            if c > .97: p = add(v, rot(q, r.choice([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]])))
            d = r.random()
            if d < .25: b.op("q.dist", h=e, v=p)
            elif d < .45: b.op("q.dist", h=e, v=p, m=r.choice([0.0, r.uniform(0, 1)]))
            elif d < .65: b.op("q.dist", h=e, v=p, m3=[r.uniform(0, 1) for _ in range(3)])
            else:
                b.op("agent.set_position", h=a, v=p)
                b.op("q.dist_agent", h=e, a=a)
        # growth along rays, shrinkage with margins and axes of at least one
        u = direction(r)
        ks = sorted(r.uniform(.1, 4) for _ in range(3))
        for i, t in enumerate(ks):
            b.op("q.dist", h=e, v=add(v, mul(t, u)), reg="r%d" % i)
            if i: b.relate("le", ["C10"], "distance value grows along rays", x="r%d" % (i - 1), y="r%d" % i, tol=1e-9)
        p = add(v, mul(r.uniform(.3, 5), direction(r)))
        m1 = r.uniform(0, .5)
        b.op("q.dist", h=e, v=p, m=m1, reg="m0"); b.op("q.dist", h=e, v=p, m=m1 + r.uniform(.01, 1), reg="m1")
        if min(ax) + min(m3(m)) > 1e-3:
            b.relate("le", ["C10"], "distance value does not grow with a margin", x="m1", y="m0", tol=1e-9)
        if r.random() < .5: b.op("o.set_orientation", h=e, q=quat(r))
        else: b.op("o.set_axis", h=e, v=lens(r))
        b.op("q.dist", h=e, v=vec(r))
    return b

def normals(r, k):
    b = B(r, "normals%d" % k)
    for _ in range(2):
        v, q, ax, m, cu = vec(r), quat(r), sized(r), margin(r), curvature(r)
        if r.random() < .1: ax[r.randrange(3)] = 0.0
        if r.random() < .3: cu = [float(r.randint(1, 4)) for _ in range(3)]
        ref = add(v, mul(.3, gvec(r, 1.0))) if r.random() < .4 else None
        e = b.ell("x", v, q, ax, cu, m=m, ref=ref)
        a = b.agent(vec(r), m=r.choice([None, .2, r.uniform(0, 1)]), q=quat(r), lin=gvec(r))
        for _ in range(10):
            c = r.random()
            if c < .6: p = surface(v, q, ax, m)(direction(r), r.choice([1.0, .4, 2.0, r.uniform(.05, 5), 10 ** r.uniform(-3, 2)]))
            elif c < .8: p = add(v, rot(q, mul(r.choice([-1, 1]) * r.uniform(.2, 4), r.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]))))
            elif c < .9: p = add(v, rot(q, [r.uniform(-2, 2), r.uniform(-2, 2), 0.0]))
            else: p = vec(r, 6)
            b.op("agent.set_position", h=a, v=p)
            b.op("q.normal", h=e, a=a)
            if r.random() < .15: b.op("agent.set_margin", h=a, m=r.uniform(0, 1.5))
            if r.random() < .1: b.op("o.set_curv", h=e, v=curvature(r))
    return b

# ================================================================ the horizontal outline
def flat(r, spread=4.0, z=0.0, lo=.3, hi=2.5):
    v = [r.uniform(-spread, spread), r.uniform(-spread, spread), z]
    return v, pquat(r), lens(r, lo, hi), margin(r)

def outlines(r, k):
    b = B(r, "outlines%d" % k)
    for _ in range(2):
        v, q, ax, m = flat(r, z=r.choice([0.0, 0.0, real(r)]))
        if r.random() < .25: v = [0.0, 0.0, v[2]]
        if r.random() < .15: m = [-.1 * x for x in [1.0, 1.0, 1.0]] if min(ax) > .2 else m
        e = b.ell("x", v, q, ax, m=m, curv=curvature(r) if r.random() < .3 else None)
        at = outline(v, q, ax, m)
        for _ in range(7):
            c = r.random()
            p = at(r.uniform(0, 2 * math.pi), r.choice([.999, 1.001, .95, 1.05, 0.0, r.uniform(0, 3)])) if c < .8 else vec(r, 5)
            if r.random() < .4: p[2] = real(r)
            b.op("q.inside", h=e, v=p)
        for n in r.sample([2, 3, 5, 10, 25, 50, 100, 20, r.choice([101, 256, 361, 500, 720])], 2):
            b.op("q.sample", h=e, n=n, sm=r.random() < .5)
        for _ in range(8):
            c = r.random()
            if c < .35:
                p, w = at(r.uniform(0, 7), r.uniform(.2, 4)), at(r.uniform(0, 7), r.uniform(.2, 4))
            elif c < .5:    # vertical or horizontal lines
                p = at(r.uniform(0, 7), r.uniform(0, 1.5))
                w = add(p, r.choice([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, -3.0, 0.0], [-0.25, 0.0, 0.0]]))
            elif c < .65:   # vertical or horizontal in the obstacle's frame
                p = at(r.uniform(0, 7), r.uniform(0, 1.5))
                w = add(p, rot(q, r.choice([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, -2.0, 0.0]])))
            elif c < .8:    # close to tangent
                t = r.uniform(0, 7)
                p0 = at(t, r.choice([.99, 1.01, .9999, 1.0001]))
                d = sub(at(t + 1e-3), at(t - 1e-3))
                p, w = sub(p0, mul(r.uniform(100, 900), d)), add(p0, mul(r.uniform(100, 900), d))
            elif c < .9:
                p = list(v)
                w = add(v, mul(r.uniform(.1, 3), dir2(r)))
            else: p, w = vec(r), vec(r)
            if r.random() < .3: p[2] = real(r)
            b.op("q.chord", h=e, v=p, w=w)
        if r.random() < .5: b.op("o.set_orientation", h=e, q=pquat(r))
        else: b.op("o.set_position", h=e, v=vec(r))
        b.op("q.inside", h=e, v=vec(r)); b.op("q.chord", h=e, v=vec(r), w=vec(r)); b.op("q.sample", h=e, n=r.randint(2, 40), sm=True)
    return b

def reach(q, ax, m, d):
    """Support distance of an outline in direction d."""
    c, s = q[0] ** 2 - q[3] ** 2, 2 * q[0] * q[3]
    a, bb = ax[0] + m3(m)[0], ax[1] + m3(m)[1]
    return math.hypot(a * (c * d[0] + s * d[1]), bb * (c * d[1] - s * d[0]))

def second(r, first, gap=None):
    """An ellipsoid placed relative to another, overlapping or apart by a chosen gap."""
    v, q, ax, m = first
    v2, q2, ax2, m2 = flat(r, z=v[2])
    if r.random() < .25: ax2 = [r.uniform(1.5, 4), r.uniform(.1, .3), 1.0]      # long and thin
    if r.random() < .15: ax2 = [x * .2 for x in ax2]                             # much smaller
    d = dir2(r)
    g = gap if gap is not None else r.choice([-.3, .02, .1, -.05, -1.0, -.6, 1.0, r.uniform(-1.5, .5), r.uniform(-.2, .2)])
    D = reach(q, ax, m, d) + reach(q2, ax2, m2, d)
    v2 = add(v, mul(max(D + g, 0.0), d))
    return v2, q2, ax2, m2

def uneven(r, s):
    """The same outline at any height and of any height: seen from above nothing changes."""
    return [s[0][0], s[0][1], r.choice([s[0][2], r.uniform(-9, 9), real(r)])], s[1], [s[2][0], s[2][1], r.choice([s[2][2], 0.0, .02, 1e-3, 7.0])], s[3]

def overlaps(r, k):
    rough = r.random() < .4
    b = B(r, "overlaps%d" % k, **({"nohull": True} if rough else {}))
    f = flat(r, z=r.choice([0.0, 0.0, .7]))
    if rough: f = uneven(r, f)
    if r.random() < .2: f = (f[0], f[1], [r.uniform(2, 4), r.uniform(.1, .3), 1.0], f[3])
    e = b.ell("arm", *f[:3], m=f[3])
    others = []
    for n in names(r, 4):
        if n == "arm": n = "bee"
        s = second(r, f)
        if rough: s = uneven(r, s)
        o = b.ell(n, *s[:3], m=s[3])
        others.append(o)
        b.op("q.inter", h=e, o=o, reg="x"); b.op("q.inter", h=o, o=e, reg="y")
        b.relate("sameb", ["C13"], "overlap does not depend on which obstacle is asked", x="x", y="y")
    b.op("q.inter", h=e, o=e)
    # crossing: long thin outlines through each other
    L = r.uniform(2, 4)
    t = r.uniform(0, 7)
    x1 = b.ell("kappa", f[0], yaw(t), [L, r.uniform(.3, .6), 1.0])
    x2 = b.ell("lambda", add(f[0], mul(r.uniform(0, 1), dir2(r))), yaw(t + r.uniform(1, 2)), [L, r.uniform(.3, .6), 1.0])
    b.op("q.inter", h=x1, o=x2, reg="x"); b.op("q.inter", h=x2, o=x1, reg="y")
    b.relate("sameb", ["C13"], "overlap does not depend on which obstacle is asked", x="x", y="y")
    # short arcs in common, of outlines of any size
    for i in range(2):
        z = 10 ** r.uniform(-2.5, 1.5)
        a1, a2 = [[z * r.uniform(.85, 1.2), z * r.uniform(.85, 1.2), z] for _ in range(2)]
        ph, d = math.pi * r.uniform(.045, .16), dir2(r)
        q1, q2 = pquat(r), pquat(r)
        o1, o2 = [r.uniform(-5, 5), r.uniform(-5, 5), 0.0], None
        R1, R2 = reach(q1, a1, None, d), reach(q2, a2, None, d)
        o2 = add(o1, mul(R1 + R2 - (R1 + R2) * (1 - math.cos(ph)), d))
        y1 = b.ell("short%d" % i, o1, q1, a1); y2 = b.ell("shorter%d" % i, o2, q2, a2)
        b.op("q.inter", h=y1, o=y2, reg="x"); b.op("q.inter", h=y2, o=y1, reg="y")
        b.relate("sameb", ["C13"], "overlap does not depend on which obstacle is asked", x="x", y="y")
    # lists and aggregates
    b.op("q.interlist", h=e, l=others[:2]); b.op("q.interlist", h=e, l=[]); b.op("q.interlist", h=e, l=others[::-1])
    far = b.ell("zeta", add(f[0], [40.0, 0.0, 0.0]), ID, [1.0, 1.0, 1.0])
    b.op("q.interlist", h=e, l=[far]); b.op("q.interlist", h=e, l=[far] + others); b.op("q.interlist", h=e, l=r.choice([[e], [far, e], [e, far], [far, e] + others]))
    b.op("agg.new", h="G1", mem=others[:r.randint(2, 4)])
    b.op("q.inter", h=e, o="G1", reg="x"); b.op("q.inter", h="G1", o=e, reg="y")
    b.relate("sameb", ["C13"], "overlap does not depend on which obstacle is asked", x="x", y="y")
    b.op("q.inter", h="G1", o=far); b.op("q.interlist", h="G1", l=[far, e]); b.op("q.interlist", h=e, l=[far, "G1"])
    b.op("agg.new", h="G2", mem=[far, x1])
    b.op("q.inter", h="G1", o="G2"); b.op("q.inter", h="G2", o="G1"); b.op("q.inter", h=x2, o="G2"); b.op("q.inter", h="G2", o=x2)
    # agents and their envelopes
    at = outline(*f)
    for _ in range(5):
        mg = r.choice([0.0, .05, .3, r.uniform(0, 1)])
        p = at(r.uniform(0, 7), r.choice([.5, .98, 1.3, 2.0, r.uniform(.5, 2)]))
        if r.random() < .4:
            t = r.uniform(0, 7)
            n = unit([math.cos(t), math.sin(t), 0.0])
            p = add(f[0], mul(reach(f[1], f[2], f[3], n) + max(.1, mg) + r.choice([.02, -.1, .3]), n))
        if r.random() < .3: p = add(p, [0.0, 0.0, r.choice([-1, 1]) * r.uniform(0, 6)])   # heights do not matter
        a = b.agent(p, m=mg, lin=mul(r.choice([0, 1, 1]), gvec(r)))
        b.op("agent.in_obs", h=a, o=e); b.op("agent.in_obs", h=a, o="G1")
        b.op("agent.env_inter", h=a, l=[e]); b.op("agent.env_inter", h=a, l=others)
        b.op("agent.env_inter", h=a, l=["G2", e])
    return b

# ================================================================ groups of obstacles
def ring(r, n, R, gap=False, z=0.0):
    """A closed (or, with a gap, open) ring of overlapping ellipsoids around the origin."""
    out = []
    step = 2 * math.pi / n
    for i in range(n - (1 if gap else 0)):
        t = i * step
        out.append(([R * math.cos(t), R * math.sin(t), z], yaw(t + math.pi / 2), [R * math.tan(step / 2) * 1.35, r.uniform(.25, .4), 1.0], None))
    return out

def cluster(r, n, z=0.0, spread=1.6):
    """Overlapping ellipsoids: each touches an earlier one."""
    f = [flat(r, spread=.5, z=z, lo=.4, hi=1.8)]
    while len(f) < n:
        s = second(r, r.choice(f), gap=-r.uniform(.15, .5))
        if max(s[2][:2]) < 4: f.append(s)
    return f

def group(r, z=0.0):
    c = r.random()
    if c < .6: return cluster(r, r.randint(2, 4), z)
    if c < .75: return ring(r, r.randint(5, 7), r.uniform(2.2, 3.5), z=z)
    if c < .85: return ring(r, r.randint(5, 7), r.uniform(2.2, 3.5), gap=True, z=z)
    return [flat(r, z=z) for _ in range(r.randint(2, 3))]     # not necessarily overlapping

def build(b, r, specs, shift=Z):
    ns = names(r, len(specs))
    return [b.ell(n, add(s[0], shift), s[1], s[2], m=s[3]) for n, s in zip(ns, specs)]

def centre(specs, shift=Z):
    return add(shift, mul(1.0 / len(specs), [sum(s[0][i] for s in specs) for i in range(3)]))

BEAR = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 3.0, -3.0, math.pi - 1e-3, math.pi - 6e-3, -math.pi + 1e-3, math.pi - 1e-9, -math.pi + 6e-3, -math.pi + 1.2e-2]
def bearing(r): return r.choice(BEAR) if r.random() < .35 else r.uniform(-math.pi, math.pi)
def around(c, t, d): return [c[0] + d * math.cos(t), c[1] + d * math.sin(t), c[2]]

def hulls(r, k):
    b = B(r, "hulls%d" % k)
    z = r.choice([0.0, 0.0, .4])
    sp = group(r, z)
    sh = [r.uniform(-3, 3), r.uniform(-3, 3), 0.0] if r.random() < .5 else Z
    mem = build(b, r, sp, sh)
    r.shuffle(mem)
    c = centre(sp, sh)
    h = "H1"
    inside = r.random() < .5
    minr = r.choice([.5, .5, .2, 1.0])
    kw = {}
    if r.random() < .7 or inside: kw["inside"] = inside
    else: inside = False
    res = r.choice([500, 500, 500, 90, 200, 360, 777, 1200])
    if minr != .5 or res != 500 or r.random() < .3: kw.update(minr=minr, res=res)
    if "minr" in kw and "inside" not in kw: kw["inside"] = inside
    if r.random() < .5: b.op("hull.new", h=h, mem=mem, **kw)
    else:
        b.op("hull.new", h=h, **kw)
        if r.random() < .25:
            res = r.choice([500, 90, 250, 360, 1000])
            b.op("hull.set_res", h=h, res=res)
        if r.random() < .5: b.op("hull.compute", h=h, mem=mem, inside=inside, minr=minr, res=res)
        else:
            c = add(c, [r.uniform(-.5, .5), r.uniform(-.5, .5), 0.0])
            b.op("hull.compute", h=h, mem=mem, ref=c, inside=inside, minr=minr, res=res)
    b.op("q.closed", h=h)
    a = b.agent(add(c, [1.0, 0.0, 0.0]))
    def ask(n):
        for _ in range(n):
            t = bearing(r)
            b.op("q.dist", h=h, v=around(c, t, r.uniform(.05, 8)))
            if r.random() < .4: b.op("q.inside", h=h, v=around(c, t, r.uniform(.05, 6)))
            if r.random() < .6:
                b.op("agent.set_position", h=a, v=around(c, t, r.uniform(.5, 6)))
                b.op("q.normal", h=h, a=a)
    ask(12)
    # a shallow dip of the surface, few samples wide: the wall passes at a little less than the distance that counts as open
    n, mr = r.choice([40, 60, 90, 120, 240, 500]), r.choice([.5, .5, .3, 1.0])
    dl = r.choice([1.0, 1.1, 1.25, 1.5, 1.8, -.3, 3.0]) * 2 * math.pi / n
    d, t = 1.2 * mr / (1 + math.copysign(dl * dl, dl) / 2), bearing(r)
    hb, wl = r.uniform(1.3, 2.5) * mr, r.choice([20.0, 50.0]) * mr
    w = b.ell("wall", around(c, t, d - hb) if 2 * hb - d > 1.3 * d else around(c, t, -d), yaw(t), [hb if 2 * hb - d > 1.3 * d else 2 * d, wl, 1.0])
    b.op("hull.new", h="H3", inside=False, minr=mr, res=n)
    b.op("hull.compute", h="H3", mem=[w], ref=c, inside=False, minr=mr, res=n)
    b.op("q.closed", h="H3")
    # no least distance at all, around small members
    w = b.ell("pebble", add(c, [r.uniform(-.02, .02), r.uniform(-.02, .02), 0.0]), pquat(r), lens(r, .05, r.choice([.1, .4, 2.0])))
    n, mr, ins = r.choice([60, 100, 200, 500]), r.choice([0.0, 0.0, .01, .04]), r.random() < .3
    b.op("hull.new", h="H4", inside=ins, minr=mr, res=n)
    b.op("hull.compute", h="H4", mem=[w], ref=c, inside=ins, minr=mr, res=n)
    b.op("q.closed", h="H4")
    for _ in range(4):
        v = around(c, bearing(r), r.choice([.02, .1, .3, r.uniform(.02, 3)]))
        b.op(r.choice(["q.dist", "q.inside"]), h="H4", v=v)
    # a moved member shows after recomputing only
    if r.random() < .6:
        m = r.choice(mem)
        b.op("o.set_orientation", h=m, q=pquat(r))
        if r.random() < .5: b.op("o.set_axis", h=m, v=lens(r))
        ask(3)
        b.op("hull.compute", h=h, mem=mem, ref=c, inside=inside, minr=minr, res=res)
        ask(5)
        b.op("q.closed", h=h)
    return b

def aggregates(r, k):
    b = B(r, "aggregates%d" % k, **({"nohull": True} if r.random() < .4 else {}))
    z = r.choice([0.0, 0.0, -.3])
    sp = group(r, z)
    sh = [r.uniform(-3, 3), r.uniform(-3, 3), 0.0] if r.random() < .5 else Z
    mem = build(b, r, sp, sh)
    r.shuffle(mem)
    G = "G1"
    if r.random() < .6: b.op("agg.new", h=G, mem=mem)
    else:
        b.op("agg.new", h=G)
        for i, m in enumerate(mem):
            if r.random() < .5: b.op("agg.add", h=G, o=m)
            else: b.op("agg.add", h=G, o=m, upd=r.random() < .5)
        b.op("agg.update_hull", h=G)
    c = centre(sp, sh)
    a = b.agent(add(c, [1.0, 0.0, 0.0]), m=r.choice([None, .3]))
    b.op("q.closed", h=G)
    for _ in range(9):
        t = bearing(r)
        p = around(c, t, r.choice([.05, .3, r.uniform(.05, 4), r.uniform(.05, 8), 30.0, 10 ** r.uniform(-6, -1)]))
        b.op("q.inside", h=G, v=p)
        if r.random() < .5: b.op("q.dist", h=G, v=p, **r.choice([{}, {"m": .2}]))
        b.op("agent.set_position", h=a, v=p)
        b.op("q.agentq", h=G, a=a)
        if r.random() < .3: b.op(r.choice(["q.repv", "q.genrep"]), h=G, a=a)
    for _ in range(3):   # near the surface of members
        s = r.choice(sp)
        p = add(sh, outline(*s)(r.uniform(0, 7), r.choice([.9, 1.1, .5])))
        b.op("q.inside", h=G, v=p)
        b.op("q.dist", h=G, v=p)
    if r.random() < .5:   # a member that moves after the surfaces were computed
        j = r.randrange(len(mem))
        o = r.choice(mem)
        p = around(c, bearing(r), r.choice([1.0, 3.0, r.uniform(1, 9)]))
        b.op("o.set_position", h=o, v=p)
        for f in (0.0, .1, .3): 
            w = add(p, mul(f, dir2(r)))
            b.op("q.inside", h=G, v=w); b.op("q.dist", h=G, v=w)
            b.op("agent.set_position", h=a, v=w); b.op("q.agentq", h=G, a=a); b.op("q.repv", h=G, a=a)
        b.op("agg.update_hull", h=G)
        b.op("q.dist", h=G, v=p)
    v = add(c, gvec(r, 1.0)); v[2] = c[2]
    if r.random() < .5:
        b.op("o.set_ref", h=G, v=v)
        if r.random() < .5:
            b.op("agg.update_hull", h=G)
            for _ in range(3): b.op("q.dist", h=G, v=around(v, bearing(r), r.uniform(.3, 6)))
    extra = second(r, sp[0], gap=-.3)
    x = b.ell("zulu", add(sh, extra[0]), extra[1], extra[2], m=extra[3])
    other = b.ell("yak", gvec(r))
    if r.random() < .5: b.op("o.set_name", h=r.choice(mem), name=r.choice(["aaa", "yeti", "zz", ""]))
    b.op("agg.add", h=G, o=x)
    if r.random() < .5: b.op("o.set_name", h=r.choice(mem), name=r.choice(["moth", "zzz"]))
    if r.random() < .5: b.op("agg.add", h=G, o=b.ell(r.choice(["newt", "Zed", "ab"]), add(sh, second(r, sp[0], gap=-.3)[0])))
    w = gvec(r); w[2] = c[2]
    b.op("o.set_ref", h=G, v=w)
    if r.random() < .5:   # a newcomer that already has the reference point the group has
        y = b.ell(r.choice(["alp", "newcomer", "zz9"]), add(sh, second(r, sp[0], gap=-.3)[0]))
        if r.random() < .5: b.op("o.set_position", h=r.choice(mem), v=add(c, [r.gauss(0, 1.5), r.gauss(0, 1.5), 0.0]))
        b.op("o.set_ref", h=y, v=w)
        b.op("agg.add", h=G, o=y, upd=False)
        if r.random() < .5: b.op("o.set_ref", h=r.choice(mem), v=w)
        b.op("agg.update_hull", h=G)
    if r.random() < .5:   # names that others have already
        s = second(r, sp[0], gap=-.3)
        n = r.choice([y["name"] for y in b.known.values()])
        b.op("agg.add", h=G, o=b.ell(n, add(sh, s[0]), s[1], s[2], m=s[3]))
        b.op("q.dist", h=G, v=add(sh, s[0]))
    b.op("q.print", h=G)
    return b

def paths(r, k):
    b = B(r, "paths%d" % k)
    n = r.randint(5, 8)
    R = r.uniform(2.0, 3.5)
    sh = [r.uniform(-3, 3), r.uniform(-3, 3), 0.0] if r.random() < .6 else Z
    rg = ring(r, n, R)
    lst = []
    def add_agg(sp, s):
        mem = build2(sp, s)
        h = b.h("G")
        b.op("agg.new", h=h, mem=mem)
        return h
    cnt = [0]
    def build2(sp, s):
        out = []
        for x in sp:
            cnt[0] += 1
            out.append(b.ell(chr(97 + cnt[0] % 26) + "x" * (cnt[0] // 26), add(x[0], s), x[1], x[2], m=x[3]))
        return out
    closed = add_agg(rg, sh)
    opened = add_agg(ring(r, n, R, gap=True), sh)
    lump = add_agg(cluster(r, 2), add(sh, [r.uniform(5, 8), r.uniform(-3, 3), 0.0]))
    e1 = build2([flat(r, spread=1.0)], add(sh, [R + 3.0, 4.0, 0.0]))[0]
    f2 = ([R + 2.5, -4.0, 0.0], pquat(r), lens(r, .5, 1.5), .2)
    e2 = build2([f2], sh)[0]
    q = [sh, add(sh, [.3 * R, -.2 * R, 0.0]), add(sh, [R + 6, 1.0, 0.0]), add(sh, [-R - 4, 0.0, 0.0]), add(sh, [0.0, -R - 3, 0.0]),
         add(sh, outline(*f2)(r.uniform(0, 7), .7)), add(sh, outline(*f2)(r.uniform(0, 7), .3)), add(sh, rg[0][0])]
    # the centre itself is the reference point of the rings: step off it
    q[0] = add(q[0], [.1, .07, 0.0])
    sets = [[closed], [opened], [e1, e2], [e2], [], [closed, e2], [e2, closed], [opened, closed, e1], [lump], [lump, e1, opened], [e1, opened, e2, lump, closed]]
    for _ in range(10):
        p, t = r.choice(q), r.choice(q)
        a = b.agent(p, lin=gvec(r) if r.random() < .5 else None, m=r.choice([None, .3]))
        l = list(r.choice(sets)); r.shuffle(l)
        b.op("agent.path", h=a, v=t, l=l)
    # short hops across an outline, and out of sight of the obstacle's centre
    f3 = (add(sh, [-R - 14.0, 3.0, 0.0]), pquat(r), lens(r, 2.0, 9.0), r.choice([0.0, .2]))
    if r.random() < .3: f3 = uneven(r, f3)
    e3 = build2([f3], Z)[0]
    for _ in range(5):
        c = r.random()
        if c < .6:
            f, h, s = r.choice([(f3, e3, Z), (f2, e2, sh)])
            o, d = r.uniform(0, 7), r.choice([.3, .05, 10 ** -r.uniform(1, 5)])
            p, t = add(s, outline(*f)(o, 1 - d)), add(s, outline(*f)(o, 1 + r.choice([d, d, -.5 * d])))
            if r.random() < .2: p = add(s, outline(*f)(o, 1 + .5 * d))
        else:
            h, o, x = closed, bearing(r), R + r.uniform(-.3, 2)
            p, t = around(sh, o, x), around(sh, o, x + r.choice([.05, .3, -.5]))
        if r.random() < .5: p, t = t, p
        l = r.choice([[h], [e1, h, opened], [h, e1]])
        if h != closed and r.random() < .4:   # above or below the obstacles
            l = [h] if r.random() < .5 else [h, e1]
            p = add(p, [0.0, 0.0, r.uniform(-6, 6)])
            t = [t[0], t[1], p[2] if r.random() < .5 else t[2] + r.uniform(-6, 6)]
        b.op("agent.set_position", h=a, v=p)
        b.op("agent.path", h=a, v=t, l=l)
    b.op("q.closed", h=closed); b.op("q.closed", h=opened); b.op("q.closed", h=e1)
    b.op("o.set_axis", h=e2, v=lens(r))
    b.op("agent.path", h=a, v=r.choice(q), l=[e2, closed])
    return b

# ================================================================ weights and modulation matrices
def weights(r, k):
    b = B(r, "weights%d" % k)
    for _ in range(8):
        n = r.choice([1, 1, 2, 3, 4, 6, 10, r.randint(11, 64)])
        crit = r.choice([1.0, 1.0, 0.0, 2.0, 1.5, r.uniform(0, 3), -1.0])
        pw = r.choice([2.0, 2.0, 1.0, 3.0, 0.5, r.uniform(.5, 4), 0.0])
        c = r.random()
        if c < .45: d = [crit + r.uniform(.01, 10) for _ in range(n)]
        elif c < .55:
            t = r.choice([-12, -8, -5])
            d = [crit + 10 ** r.uniform(t, r.choice([5, 0, t + 2])) for _ in range(n)]
        elif c < .7: d = [crit + r.uniform(-1, 1) for _ in range(n)]
        elif c < .8: d = [crit - r.uniform(0.001, 1) for _ in range(n)]
        elif c < .9: d = [crit] + [crit + r.uniform(.1, 3) for _ in range(n - 1)]
        else: d = [crit + 1.0] * n
        if n > 1 and r.random() < .3: d[-1] = d[0]
        r.shuffle(d)
        b.op("mod.weights", d=d, crit=crit, pow=pw, reg="w")
        p = list(range(n)); r.shuffle(p)
        b.op("mod.weights", d=[d[i] for i in p], crit=crit, pow=pw, reg="v")
        b.relate("permw", ["C17"], "permuting the distances permutes the weights", x="w", y="v", perm=[i + 1 for i in p], tol=1e-12)
    for _ in range(3):
        d = r.choice([1.0, .5, 1.0001, 2.0, r.uniform(.1, 5), 1e3])
        if r.random() < .5: b.op("mod.eig", d=d)
        else: b.op("mod.eig", d=d, f=r.choice([1.0, 2.0, .5, r.uniform(.3, 3)]))
    return b

def inner_ref(r, v, q, ax, m, curv=None):
    """A reference point inside an ellipsoid."""
    l = [ax[i] + m3(m)[i] for i in range(3)]
    u = mul(r.uniform(0, .6), direction(r))
    return add(v, rot(q, [u[i] * l[i] for i in range(3)]))

def matrices(r, k):
    b = B(r, "matrices%d" % k)
    for _ in range(3):
        v, q, ax, m, cu = vec(r), quat(r), lens(r), margin(r), curvature(r)
        ref = inner_ref(r, v, q, ax, m) if r.random() < .6 else None
        e = b.ell("x", v, q, ax, cu, m=m, ref=ref)
        a = b.agent(vec(r), m=r.choice([None, .2]), lin=gvec(r))
        for _ in range(5):
            c = r.random()
            if c < .6: p = surface(v, q, ax, m)(direction(r), r.choice([1.0, 1.2, .7, 2.0, r.uniform(.3, 4)]))
            elif c < .75: p = add(ref or v, mul(r.uniform(.3, 3), r.choice([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0]])))
            elif c < .85: p = add(v, rot(q, mul(r.uniform(.3, 3), r.choice([[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, -1.0]]))))
            else: p = vec(r, 5)
            b.op("agent.set_position", h=a, v=p)
            b.op("mod.matrix", o=e, a=a)
            if r.random() < .4: b.op("mod.basis", o=e, a=a)
    for _ in range(2):
        b.op("mod.eig", d=r.choice([1.0, .3, 1.5, 4.0, r.uniform(.1, 5)]), f=r.choice([1.0, 2.0, r.uniform(.4, 3)]))
    # an aggregate
    if r.random() < .4:
        sp = cluster(r, r.choice([2, 3, 3, 3]))
        mem = build(b, r, sp)
        b.op("agg.new", h="G1", mem=mem)
        c = centre(sp)
        for _ in range(3):
            b.op("agent.set_position", h=a, v=around(c, r.uniform(-3, 3), r.uniform(.3, 6)))
            b.op("mod.matrix", o="G1", a=a); b.op("mod.basis", o="G1", a=a)
    return b

# ================================================================ modulated velocities
def drift(r, flat_=False):
    """How an obstacle moves."""
    c = r.random()
    v = [r.uniform(-1, 1), r.uniform(-1, 1), 0.0 if flat_ else r.uniform(-1, 1)] if c < .6 else gvec(r, r.choice([1.0, 5.0, .01]))
    if c > .9: v = [r.choice([-1, 1]) * r.uniform(.1, 3), 0.0, 0.0] if r.random() < .5 else [0.0, r.uniform(-3, 3), 0.0]
    if flat_: v[2] = 0.0
    return v
def spin(r):
    """How an obstacle turns: about any axis, often about one of the axes of the world, slowly or fast."""
    w = r.choice([r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-9, 9), r.choice([-1, 1]) * 10 ** -r.uniform(1, 4)])
    if r.random() < .45:
        v = [0.0, 0.0, 0.0]
        v[r.choice([0, 1, 2, 2, 2])] = w
        return v
    return mul(w, direction(r))
def scene3(r, n, spread=4.0):
    """Ellipsoids anywhere in space."""
    out = []
    for _ in range(n):
        v, q, ax, m = gvec(r, spread), quat(r, True), lens(r, .3, 1.5), margin(r)
        out.append(dict(v=v, q=q, ax=ax, m=m, cu=curvature(r), ref=inner_ref(r, v, q, ax, m) if r.random() < .5 else None,
                        lin=drift(r) if r.random() < .6 else None, ang=spin(r) if r.random() < .5 else None))
    return out

def scene2(r, n, spread=5.0, z=0.0):
    """Planar ellipsoids, some of them in overlapping groups."""
    out = []
    while len(out) < n:
        if out and r.random() < .45:
            p = r.choice(out)
            v, q, ax, m = second(r, (p["v"], p["q"], p["ax"], p["m"]), gap=-r.uniform(.15, .5))
        else: v, q, ax, m = flat(r, spread, z, .3, 1.4)
        out.append(dict(v=v, q=q, ax=ax, m=m, cu=None, ref=None, lin=drift(r, True) if r.random() < .6 else None,
                        ang=[0.0, 0.0, r.choice([r.uniform(-1, 1), r.uniform(-9, 9)])] if r.random() < .5 else None))
    return out

def twins(r, sc, p=.12):
    """Now and then two obstacles share a place."""
    if len(sc) > 1 and r.random() < p:
        i, j = r.sample(range(len(sc)), 2)
        sc[j]["v"] = sc[i]["v"]
        if r.random() < .3: sc[j]["ref"] = sc[i]["ref"]
    return sc
def put(b, r, sc, ns=None):
    ns = ns or names(r, len(sc))
    return [b.ell(n, s["v"], s["q"], s["ax"], s["cu"], s["lin"], s["ang"], s["ref"], s["m"]) for n, s in zip(ns, sc)]

def velocity(r, flat_=False):
    c = r.random()
    if c < .06: return Z
    if c < .25:
        d = r.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -2.0, 0.0]] + ([] if flat_ else [[0.0, 0.0, 1.0], [0.0, 0.0, -.5]]))
        return d
    if c > .87 and not flat_: return upright(r)
    v = gvec(r, 2.0)
    if c < .32: v = mul(1e-4, v)
    if c > .95: v = mul(100, v)
    if flat_: v[2] = 0.0
    return v

def free_point(r, sc, flat_, tries=60, lo=1.02, hi=60.0, spread=6.0):
    """A point outside every obstacle of a scene."""
    for _ in range(tries):
        p = gvec(r, spread)
        if flat_: p[2] = sc[0]["v"][2] if sc else 0.0
        if all(lo < gamma(s, p) for s in sc): return p
    return [12.0 + r.random(), 11.0, 0.0]

def gamma(s, p, extra=0.0):
    x = rot([s["q"][0], -s["q"][1], -s["q"][2], -s["q"][3]], sub(p, s["v"]))
    cu = s["cu"] or [1.0, 1.0, 1.0]
    return sum(abs(x[i] / (s["ax"][i] + m3(s["m"])[i] + extra)) ** (2 * cu[i]) for i in range(3))

def modes(r):
    """Arguments of modulate_velocity with the default critical distance."""
    return r.choice([{}, {"local": False}, {"local": False, "rep": False}, {"local": False, "rep": False, "planar": False}])

def law(r, k):
    b = B(r, "law%d" % k, nohull=True)
    agg = r.random() < .4
    n = r.choice([1, 2, 2, 3, 4, 6, 9, r.choice([3, 14, 18])])
    sc = twins(r, scene2(r, n, 5.0 + n / 2) if agg or r.random() < .4 else scene3(r, n))
    planar = agg or all(s["v"][2] == 0.0 for s in sc)
    obs = put(b, r, sc)
    e = b.env(agg, obs)
    a = b.agent(free_point(r, sc, planar), lin=velocity(r, planar), m=r.choice([None, None, .2]), q=quat(r))
    if r.random() < .15:
        nm = r.choice(["same", "", "aggregate"])
        for o in r.sample(obs, r.randint(1, n)): b.op("o.set_name", h=o, name=nm)
    for i in range(8):
        c = r.random()
        p = free_point(r, sc, planar)
        if c > .75:
            s = r.choice(sc)
            p = surface(s["v"], s["q"], s["ax"], s["m"])(direction(r), r.uniform(1.0, 1.6))
            if planar: p[2] = s["v"][2]
        b.op("agent.set_position", h=a, v=p)
        b.op("agent.set_lin", h=a, v=velocity(r, planar))
        kw = modes(r)
        if r.random() < .35: kw = {"local": False, "rep": False, "planar": False, "crit": r.choice([1.0, 0.5, 1.5, r.uniform(0, 2)])}
        if "crit" in kw and r.random() < .6: kw["pow"] = r.choice([2.0, 1.0, 3.0, r.uniform(.5, 4)])
        b.op("mod.vel", a=a, e=e, **kw)
        if r.random() < .2:
            o = r.choice(obs)
            b.op(*["o.set_lin"], h=o, v=velocity(r, planar))
        if r.random() < .15 and not agg:
            b.op("o.set_ref", h=r.choice(obs), v=gvec(r, .1)) if r.random() < .1 else b.op("o.set_ang", h=r.choice(obs), v=[0.0, 0.0, r.uniform(-1, 1)])
    if r.random() < .5:
        l = len(obs)
        d = [r.uniform(.5, 5) for _ in obs]
        w = [r.uniform(0, 1) for _ in obs]
        b.op("mod.relvel", a=a, l=obs, d=d, w=[x / sum(w) for x in w])
    # moves, removal and update change the scene of the next modulation
    for _ in range(3):
        c = r.random()
        if c < .4: b.op("o.set_position", h=r.choice(obs), v=[r.uniform(-6, 6), r.uniform(-6, 6), 0.0 if planar else r.uniform(-2, 2)])
        elif c < .7: b.op("env.update", h=e)
        else: b.op("env.set_agg", h=e, v=r.random() < .5) if planar else None
        b.op("mod.vel", a=a, e=e, **modes(r))
    return b

def atsurface(r, k):
    b = B(r, "surface%d" % k, nohull=True)
    n = r.choice([1, 1, 2, 3])
    planar = r.random() < .4
    sc = scene2(r, n) if planar else scene3(r, n)
    obs = put(b, r, sc)
    e = b.env(False, obs)
    mg = r.choice([None, None, .2, r.uniform(0, .6)])
    a = b.agent(Z, m=mg)
    for i in range(9):
        s = r.choice(sc)
        ex = 0.0 if mg is None else mg
        if planar:
            t = r.uniform(0, 7)
            s2 = dict(s); l = [s["ax"][j] + m3(s["m"])[j] + ex for j in range(2)]
            u = [math.cos(t), math.sin(t), 0.0]
        else:
            u = direction(r)
        cu = s["cu"] or [1.0, 1.0, 1.0]
        g = sum(abs(u[j]) ** (2 * cu[j]) for j in range(3))
        # scale the direction so that the level value is the wanted one (bisection, curvature may differ per axis)
        lo, hi = 0.0, 3.0
        for _ in range(200):
            mid = (lo + hi) / 2
            if sum(abs(mid * u[j]) ** (2 * cu[j]) for j in range(3)) < 1: lo = mid
            else: hi = mid
        kk = lo * r.choice([1.0, 1.0, 1.0, .999999, .9, .5, r.uniform(.2, 1)])
        l = [s["ax"][j] + m3(s["m"])[j] + ex for j in range(3)]
        p = add(s["v"], rot(s["q"], [kk * l[j] * u[j] for j in range(3)]))
        b.op("agent.set_position", h=a, v=p)
        v = velocity(r, planar)
        if r.random() < .3: v = mul(r.uniform(.5, 2), unit(sub(s["v"], p)))   # straight into it
        b.op("agent.set_lin", h=a, v=v)
        b.op("mod.vel", a=a, e=e, **modes(r))
        if r.random() < .25:
            j = r.randrange(n)
            b.op("o.set_lin", h=obs[j], v=velocity(r, planar))
    # exactly at an end of an axis, head-on or along the surface, of an obstacle that is at rest, comes or goes along an axis
    ax = [r.choice([.5, 1.0, 2.0]) for _ in range(3)]
    c = [float(r.randint(-4, 4)) for _ in range(3)]
    o = b.ell("onset", c, ID, ax)
    f = b.env(False, [o] + ([b.ell("other", add(c, [9.0, 5.0, 0.0]), ID, [1.0, 1.0, 1.0])] if r.random() < .3 else []))
    d = b.agent(Z)
    for _ in range(4):
        j, s = r.randrange(3), r.choice([-1.0, 1.0])
        u = [s if i == j else 0.0 for i in range(3)]
        b.op("agent.set_position", h=d, v=add(c, mul(ax[j], u)))
        b.op("agent.set_lin", h=d, v=r.choice([mul(-1.0, u), mul(-.5, u), mul(-2.0, u), Z, [0.0 if i == j else 1.0 for i in range(3)]]))
        b.op("o.set_lin", h=o, v=r.choice([u, mul(.5, u), mul(-.25, u), Z, [0.5 if i == (j + 1) % 3 else 0.0 for i in range(3)]]))
        b.op("mod.vel", a=d, e=f, **r.choice([{}, {"local": False}, {"local": False, "rep": False}]))
    return b

def sight(r, k):
    b = B(r, "sight%d" % k, nohull=True)
    agg = r.random() < .5
    n = r.choice([0, 1, 2, 3, 4, 9])
    sc = scene2(r, n, 5.0 + n / 2) if n else []
    obs = put(b, r, sc)
    e = b.env(agg, obs, update=r.random() < .9)
    a = b.agent(free_point(r, sc, True), lin=velocity(r, True), m=r.choice([None, .2, .5]))
    for i in range(9):
        c = r.random()
        p = free_point(r, sc, True, spread=9.0)
        v = velocity(r, True)
        if c > .5 and sc:
            s = r.choice(sc)
            t = r.uniform(0, 7)
            nrm = [math.cos(t), math.sin(t), 0.0]
            d = reach(s["q"], s["ax"], s["m"], nrm) + r.choice([.05, .3, .55, .65, .8, .2])
            p = add(s["v"], mul(d, nrm))
            if r.random() < .6: v = mul(-r.uniform(.1, 2), nrm)
        if c < .2: p = [40.0 * math.cos(k + i), 40.0 * math.sin(k + i), 0.0]
        b.op("agent.set_position", h=a, v=p)
        b.op("agent.set_lin", h=a, v=v)
        kw = {"local": True}
        if r.random() < .5: kw["rep"] = r.random() < .5
        if "rep" in kw and r.random() < .5: kw["planar"] = r.random() < .5
        if "planar" in kw and r.random() < .4: kw["crit"] = r.choice([1.0, 1.5, .5])
        b.op("mod.vel", a=a, e=e, **kw)
        if not kw.get("rep") and not kw.get("planar") and r.random() < .3:
            b.op("mod.vel", a=a, e=e)
        if obs and r.random() < .2:
            b.op("env.remove", h=e, name=[o for o in b.ops if o["op"] == "ell.new" and o["h"] == obs[-1]][0]["name"])
            obs.pop(); sc.pop()
            if r.random() < .7: b.op("env.update", h=e)
    b.op("env.new", h="E9")
    b.op("mod.vel", a=a, e="E9", **r.choice([{}, {"local": True}, {"local": False, "rep": True}, {"local": False, "rep": True, "planar": True}]))
    return b

def moved(r, s, q, t):
    f = lambda x: None if x is None else add(t, rot(q, x))
    g = lambda x: None if x is None else rot(q, x)
    return dict(s, v=f(s["v"]), q=qmul(qunit(q), s["q"]), ref=f(s["ref"]), lin=g(s["lin"]), ang=g(s["ang"]))

def upright(r):
    """Velocities close to the axes, where frames change over."""
    d = r.choice([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0]])
    t = r.choice([0.0, 1e-9, 1e-6, 1e-5, 1e-4, 1e-3, .01, .05, .1, .3])
    return mul(r.choice([1.0, .01, r.uniform(.1, 3)]), unit(add(d, mul(t, direction(r)))))

def covariance(r, k):
    b = B(r, "covariance%d" % k, nohull=True)
    agg = r.random() < .4
    planar = agg or r.random() < .3
    n = r.choice([1, 2, 3, 4])
    sc = twins(r, scene2(r, n) if planar else scene3(r, n), .3)
    for s in sc:
        if s["ref"] is None: s["ref"] = s["v"]
    q = pquat(r) if planar else quat(r, True)
    t = gvec(r, 5.0)
    if agg: t[2] = 0.0
    ns = names(r, n)
    o1 = put(b, r, sc, ns)
    o2 = put(b, r, [moved(r, s, q, t) for s in sc], ns)
    # a renamed and re-ordered copy, and one with scaled velocities
    idx = list(range(n)); r.shuffle(idx)
    o3 = put(b, r, [sc[i] for i in idx], names(r, n))
    f = r.choice([.5, 2.0, 10.0, .01, r.uniform(.1, 5), .001])
    o4 = put(b, r, [dict(s, lin=s["lin"] and mul(f, s["lin"]), ang=s["ang"] and mul(f, s["ang"])) for s in sc], ns)
    E = [b.env(agg, o) for o in (o1, o2, o3, o4)]
    if r.random() < .3:
        for o in o3: b.op("o.set_name", h=o, name="same")
    mg = r.choice([None, .2])
    a1, a2, a4 = b.agent(Z, m=mg), b.agent(Z, m=mg), b.agent(Z, m=mg)
    for i in range(4):
        p = free_point(r, sc, planar, lo=1.05)
        v = gvec(r, 2.0)
        if r.random() < .25: v = upright(r)
        elif planar and r.random() < .8: v[2] = 0.0
        b.op("agent.set_position", h=a1, v=p); b.op("agent.set_lin", h=a1, v=v)
        b.op("agent.set_position", h=a2, v=add(t, rot(q, p))); b.op("agent.set_lin", h=a2, v=rot(q, v))
        b.op("agent.set_position", h=a4, v=p); b.op("agent.set_lin", h=a4, v=mul(f, v))
        kw = {}
        if r.random() < .3: kw = {"local": False, "rep": False, "planar": False, "crit": r.uniform(.2, 1.0), "pow": r.choice([1.0, 2.0, 3.0])}
        b.op("mod.vel", a=a1, e=E[0], reg="v1", **kw)
        b.op("mod.vel", a=a2, e=E[1], reg="v2", **kw)
        b.op("mod.vel", a=a1, e=E[2], reg="v3", **kw)
        b.op("mod.vel", a=a4, e=E[3], reg="v4", **kw)
        if agg: b.relate("rotdir", ["C22"], "modulation follows a rigid motion", x="v1", y="v2", q=q, tol=.2, e1=E[0], e2=E[1])
        else: b.relate("rot", ["C22"], "modulation follows a rigid motion", x="v1", y="v2", q=q, tol=1e-5)
        b.relate("same", ["C22", "C20"], "names and order do not matter to modulation", x="v1", y="v3", tol=1e-6)
        b.relate("scaled", ["C22"], "scaling all velocities scales the result", x="v1", y="v4", s=f, tol=1e-6)
        j = r.randrange(n)
        if not agg:
            b.op("q.dist_agent", h=o1[j], a=a1, reg="d1"); b.op("q.dist_agent", h=o2[j], a=a2, reg="d2")
            b.relate("samex", ["C22"], "distances follow a rigid motion", x="d1", y="d2", tol=1e-8)
            b.op("q.repv", h=o1[j], a=a1, reg="u1"); b.op("q.repv", h=o2[j], a=a2, reg="u2")
            b.relate("rot", ["C22"], "repulsion follows a rigid motion", x="u1", y="u2", q=q, tol=1e-7)
        if planar:
            b.op("q.inside", h=o1[j], v=p, reg="i1"); b.op("q.inside", h=o2[j], v=add(t, rot(q, p)), reg="i2")
            b.relate("sameb", ["C22"], "containment follows a rigid motion", x="i1", y="i2")
    return b

def repulsion(r, k):
    b = B(r, "repulsion%d" % k, nohull=True)
    agg = r.random() < .5
    planar = agg or r.random() < .5
    n = r.choice([1, 2, 3])
    sc = scene2(r, n) if planar else scene3(r, n)
    obs = put(b, r, sc)
    e = b.env(agg, obs)
    mg = r.choice([None, .1, .3])
    a = b.agent(Z, m=mg)
    for i in range(7):
        s = r.choice(sc)
        p = surface(s["v"], s["q"], s["ax"], s["m"], mg or 0.0)(direction(r) if not planar else dir2(r), r.choice([1.0, 1.03, 1.06, .9, .6, 1.2, r.uniform(.2, 2), r.uniform(1, 5)]))
        if planar: p[2] = 0.0
        b.op("agent.set_position", h=a, v=p)
        b.op("agent.set_lin", h=a, v=velocity(r, planar))
        j = r.randrange(n)
        b.op("q.repv", h=obs[j], a=a)
        b.op("q.genrep", h=obs[j], a=a, **r.choice([{}, {"t": 1.1}, {"t": 2.0}, {"t": .5}, {"t": r.uniform(.2, 4)}, {"t": 40.0}]))
        if r.random() < .3: b.op("q.repf", h=obs[j], a=a, **r.choice([{}, {"f": 20.0}]))
        if agg: b.op("q.genrep", h="@%s:0" % e, a=a); b.op("q.repv", h="@%s:1" % e, a=a)
        b.op("mod.vel", a=a, e=e, local=r.random() < .3, rep=True)
        if r.random() < .3: b.op("mod.vel", a=a, e=e)
        if r.random() < .2: b.op("mod.vel", a=a, e=e, local=False, rep=False)
    if r.random() < .4:   # a distance value exactly at the threshold: numbers without rounding
        u = b.ell("unit", Z, ID, [1.0, 1.0, 1.0])
        a = b.agent(Z)
        for x in r.sample([.5, 1.0, 1.5, 2.0, 3.0, 4.0], 3):
            b.op("agent.set_position", h=a, v=mul(x, r.choice([[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]])))
            b.op("q.genrep", h=u, a=a, t=x * x, exact=True)
    return b

def degenerate(r, k):
    b = B(r, "degenerate%d" % k, nohull=True)
    planar = r.random() < .6
    n = r.choice([1, 2, 3, 4])
    sc = scene2(r, n) if planar else scene3(r, n)
    for s in sc:
        c = r.random()
        if c < .15: s["ax"] = [0.0, 0.0, 0.0]; s["m"] = None
        elif c < .3: s["ax"] = list(s["ax"]); s["ax"][r.randrange(3)] = 0.0
        elif c < .35: s["ax"] = [1e-3, 1e-3, 1e-3]
        if r.random() < .15: s["lin"] = mul(1e6, gvec(r))
    if n > 1 and r.random() < .4: sc[1] = dict(sc[0])
    obs = put(b, r, sc)
    e = b.env(r.random() < .4 and planar, obs)
    a = b.agent(Z, m=r.choice([None, 0.0, .2]))
    for i in range(9):
        s = r.choice(sc)
        p = r.choice([s["v"], s["ref"] or s["v"], add(s["v"], [s["ax"][0], 0.0, 0.0]), add(s["v"], [0.0, 0.0, .5]), vec(r), Z,
                      add(s["ref"] or s["v"], [0.0, 0.0, 1.0]), centre([(x["v"],) for x in sc]), mul(1e5, direction(r)), add(s["v"], [1e-9, 0.0, 0.0]),
                      add(s["v"], mul(1e-5, direction(r)))])
        b.op("agent.set_position", h=a, v=p)
        lin = r.choice([Z, velocity(r), velocity(r), s["lin"] or Z, mul(1e-9, direction(r)), mul(1e6, direction(r))])
        b.op("agent.set_lin", h=a, v=lin)
        kw = {}
        if r.random() < .7:
            kw = {"local": r.random() < .4}
            if r.random() < .6: kw["rep"] = r.random() < .5
            if "rep" in kw and r.random() < .6: kw["planar"] = r.random() < .5
            if "planar" in kw and r.random() < .3: kw["crit"] = r.choice([0.0, 1.0, 2.0, 100.0])
        b.op("mod.vel", a=a, e=e, **kw)
        if r.random() < .15: b.op("o.set_curv", h=r.choice(obs), v=curvature(r))
        if r.random() < .1: b.op("env.update", h=e)
    return b

def planars(r, k):
    b = B(r, "planar%d" % k, nohull=True)
    agg = r.random() < .3
    n = r.choice([1, 2, 3])
    sc = scene2(r, n, z=0.0 if agg else r.choice([0.0, .3]))
    obs = put(b, r, sc)
    e = b.env(agg, obs)
    z = sc[0]["v"][2]
    a = b.agent([0.0, 0.0, z], m=r.choice([None, .2]))
    for i in range(8):
        s = r.choice(sc)
        p = free_point(r, sc, True)
        p[2] = z
        c = r.random()
        if c < .5: v = mul(r.uniform(.1, 2), unit(sub(add(s["v"], mul(.3, dir2(r))), p)))
        elif c < .7: v = mul(r.choice([-1, 1]) * r.uniform(.1, 2), unit(sub(s["v"], p)))
        elif c < .8: v = r.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -.5, 0.0]]); p = add(s["v"], [.2 - 3 * v[0], .1 - 3 * v[1], 0.0])
        elif c < .85: v = Z
        else: v = velocity(r, True)
        if r.random() < .3: p = add(s["v"], mul(r.uniform(.05, .9) * min(s["ax"][:2]), dir2(r)))  # inside the outline
        if r.random() < .3 and norm(v) > 0: v = mul(10 ** r.uniform(-3, -.8), unit(v))             # slow
        b.op("agent.set_position", h=a, v=p)
        b.op("agent.set_lin", h=a, v=v)
        d = r.random()
        if d < .35: b.op("o.shift", h=r.choice(obs), a=a)
        elif d < .4 and agg: b.op("o.shift", h="@%s:0" % e, a=a)
        else:
            kw = {"local": r.random() < .4, "rep": r.random() < .3, "planar": r.random() < .85}
            b.op("mod.vel", a=a, e=e, **kw)
        if r.random() < .15: b.op("o.set_ref", h=r.choice(obs), v=add(s["v"], mul(.2, dir2(r))))
    # a reference point off the plane of motion comes back to it
    for _ in range(2):
        o, s = r.choice(list(zip(obs, sc)))
        b.op("o.set_ref", h=o, v=add(s["v"], [r.uniform(-.2, .2), r.uniform(-.2, .2), r.choice([-1, 1]) * r.uniform(.05, .6)]))
        p = free_point(r, sc, True); p[2] = r.choice([z, z, z + r.uniform(-1, 1)])
        b.op("agent.set_position", h=a, v=p)
        v = mul(r.uniform(.1, 2), unit(sub(add(s["v"], mul(.2, dir2(r))), p))); v[2] = r.choice([0.0, 0.0, r.uniform(-.3, .3)])
        b.op("agent.set_lin", h=a, v=v)
        b.op("o.shift", h=o, a=a)
    return b

# ================================================================ closed loop
def loops(r, k, steps=60):
    if k % 5 == 4: return swept(r, k, steps)
    b = B(r, "loop%d" % k, nohull=True)
    c = k % 5
    planar = c in (0, 2)
    n = 1 if c < 2 else r.choice([2, 3])
    sc = []
    for i in range(n):
        v = [0.0, 0.0, 0.0] if i == 0 else [7.0 * math.cos(2.1 * i), 7.0 * math.sin(2.1 * i), 0.0]
        q = pquat(r) if planar else quat(r, True)
        sc.append(dict(v=v, q=q, ax=lens(r, .5, 1.6), m=margin(r), cu=curvature(r) if r.random() < .3 else None, ref=None, lin=None, ang=None))
    if n == 1 and r.random() < .5: sc[0]["ref"] = inner_ref(r, sc[0]["v"], sc[0]["q"], mul(.5, sc[0]["ax"]), None)
    move = n == 1 and r.random() < .35
    if move:
        if r.random() < .6: sc[0]["lin"] = mul(.15, dir2(r))
        if r.random() < .6: sc[0]["ang"] = [0.0, 0.0, r.choice([-.1, .1])]
    obs = put(b, r, sc)
    e = b.env(False, obs)
    mg = r.choice([None, .1])
    u = dir2(r) if planar else direction(r)
    start = mul(4.5, u)
    side = dir2(r) if planar else direction(r)
    off = sub(side, mul(dot(side, u), u))
    goal = add(mul(-4.5, u), off)
    headon = dot(off, off) < .05
    for s in sc:
        if gamma(s, start, mg or 0.0) < 1.3 or gamma(s, goal, mg or 0.0) < 1.3: return None
    a = b.agent(start, m=mg)
    kw = {}
    if move: kw["move"] = obs
    close = all(gamma(s, goal, mg or 0.0) > 2.5 for s in sc)      # slow creeping is over soon there
    if n == 1 and not move and not headon: kw["within"] = .02 if close else .12
    b.op("loop", a=a, e=e, goal=goal, gain=1.0, dt=.05 if not move else .03, vmax=1.0, n=steps * 8 if "within" in kw and close else steps * 6 if n == 1 and not move else steps * 3, guard=obs, tol=2e-2, **kw)
    return b

def swept(r, k, steps):
    """An obstacle moves or turns towards an agent slower than it."""
    b = B(r, "swept%d" % k, nohull=True)
    t0 = r.uniform(-math.pi, math.pi)
    turn = r.random() < .65
    m = margin(r)
    m = None if isinstance(m, float) and m > .3 else [.5 * x for x in m] if isinstance(m, list) else m
    if turn:
        sg = r.choice([-1, 1])
        w = sg * r.choice([.06, .1, .14, .3])
        ax = [r.uniform(2, 3), r.uniform(.4, .6), r.uniform(.5, 1.0)]
        s = dict(v=Z, q=yaw(t0), ax=ax, m=m, cu=None, ref=None, lin=None, ang=[0.0, 0.0, w])
        t = t0 + sg * r.uniform(.45, .8) + r.choice([0.0, math.pi])
        start = mul(r.uniform(1.6, ax[0]), [math.cos(t), math.sin(t), 0.0])
        time = min(18.0, 1.1 / abs(w))
    else:
        u = dir2(r) if r.random() < .6 else direction(r)
        sp = r.choice([.08, .15, .3])
        s = dict(v=Z, q=pquat(r) if r.random() < .6 else quat(r, True), ax=lens(r, .5, 1.2), m=m, cu=curvature(r) if r.random() < .3 else None, ref=None, lin=mul(sp, u), ang=None)
        start = mul(2.2, u)
        time = min(18.0, 2.2 / sp)
    if gamma(s, start, .1) < 1.25: return None
    obs = put(b, r, [s])
    e = b.env(False, obs)
    a = b.agent(start, m=r.choice([None, None, .05]))
    goal = add(start, mul(r.uniform(.2, 1.0), dir2(r) if turn or r.random() < .5 else direction(r)))
    if gamma(s, goal, .1) < 1.25: return None
    b.op("loop", a=a, e=e, goal=goal, gain=1.0, dt=.03, vmax=r.choice([.03, .1]), n=int(time / .03), guard=obs, tol=2e-2, move=obs)
    return b

# ================================================================ numeric helpers
def numeric(r, k):
    b = B(r, "numeric%d" % k)
    for _ in range(3):
        lo, hi = real(r, 10), real(r, 10)
        b.op("mt.linspace", a=lo, b=hi, n=r.choice([2, 3, 5, 10, 100, 2, 7, 33, 500]))
    b.op("mt.linspace", a=real(r), b=real(r), n=r.choice([1, 0, -1, -7]))
    x = real(r); b.op("mt.linspace", a=x, b=x, n=r.randint(2, 5))
    b.op("mt.grid", a=real(r), b=4.0 + r.random(), n=r.randint(2, 6), a2=real(r), b2=5.0 + r.random(), n2=r.randint(2, 6))
    if r.random() < .3: b.op("mt.grid", a=0.0, b=1.0, n=r.choice([1, 3]), a2=0.0, b2=1.0, n2=r.choice([0, 1]))
    b.op("mt.rand", a=real(r), b=real(r), n=30)
    b.op("mt.rand", a=real(r), n=30)
    for _ in range(8):
        c = r.random()
        v = vec(r, 5)
        if c < .3: v = r.choice([Z, [0.0, 0.0, 2.0], [0.0, 0.0, -3.0], [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [-1.0, -1e-9, 0.0], [-2.0, -0.0, 1.0], [1e-9, 0.0, 1.0], [1e5, -1e5, 3.0]])
        b.op("mt.round", v=v)
        if r.random() < .4: b.op("mt.p2c", v=[abs(real(r)), r.uniform(0, math.pi), r.uniform(-math.pi, math.pi)])
        if r.random() < .4: b.op("mt.c2p", v=v)
    for _ in range(2):
        n = r.choice([1, 2, 3, 8, 30])
        cols = [vec(r) for _ in range(n)]
        if n > 2 and r.random() < .5: cols[1][1] = cols[0][1]
        b.op("mt.sort", cols=cols)
    return b

# ================================================================ drawings, figures, text
ODD = ["_", " ", "-", "0", "None", "a b", "box_2", "x" * 60, "$x$", "nan", ".", "aggregate", "envelope", "k", "o", "x", "No name", "Box", "#1", "a/b", "%s", "_hidden", " box", "box ", "a  b", "   ", "box.", "BOX", "1e5", "-1", "Nr. 5", "left, right", "a:b", "name: x", "tab\\tno", "[1]", "(x)", "{}"]
def drawing(r, k):
    b = B(r, "drawing%d" % k)
    cols = ["k", "b", "g", "r", "m", "c", "y", "C3", "C10", "w"]
    for _ in range(2):
        v, q, ax, m = flat(r, z=real(r))
        if r.random() < .3: q = ID
        e = b.ell(r.choice(["box", "tree", "", r.choice(ODD)]), v, q, ax, m=m, ref=r.choice([None, vec(r)]))
        b.op("draw", h=e, **r.choice([{}, {"color": r.choice(cols)}, {"color": r.choice(cols), "axis": "xy"}]))
        b.op("draw", h=e, color=r.choice(cols), axis="xz")
        b.op("o.set_orientation", h=e, q=ID)
        if r.random() < .5: b.op("o.set_axis", h=e, v=lens(r))
        b.op("draw", h=e, color=r.choice(cols), axis="xz")
    e = b.ell("tilted", vec(r), quat(r), lens(r), m=margin(r))
    b.op("draw", h=e, color="r", axis=r.choice(["xy", "xz"]))
    if k % 2 == 0:
        sp = cluster(r, r.randint(2, 3))
        mem = build(b, r, sp)
        b.op("agg.new", h="G1", mem=mem)
        b.op("draw", h="G1", **r.choice([{}, {"color": "g"}, {"color": "b", "axis": "xy"}]))
        b.op("draw", h="G1", color=r.choice(cols), axis="xz")
        b.op("agg.new", h="G2", mem=[b.ell(nm, add(s[0], [30.0, 4.0, -7.0]), ID, s[2], m=s[3]) for nm, s in zip(["xa", "xb"], sp)])
        b.op("draw", h="G2", color=r.choice(cols), axis=r.choice(["xz", "xz", "xy"]))
    return b

def figures(r, k):
    b = B(r, "figures%d" % k, nohull=True)
    n = r.choice([0, 1, 2, 3, 7])
    sc = []
    for i in range(n):
        s = flat(r, spread=6.0, z=r.choice([0.0, .5]))
        sc.append(dict(v=[s[0][0] + .37 * i, s[0][1], s[0][2] + .1 * i], q=s[1] if r.random() < .5 else ID, ax=s[2], m=s[3], cu=None, ref=None, lin=None, ang=None))
    obs = put(b, r, sc)
    if n == 2 and r.random() < .5:
        sp = cluster(r, 2)
        mem = [b.ell(nm, add(s[0], [30.0, 0.0, 0.0]), s[1], s[2], m=s[3]) for nm, s in zip(["xa", "xb"], sp)]
        b.op("agg.new", h="G1", mem=mem)
        obs.insert(r.randrange(n + 1), "G1")
    at = r.choice([vec(r), vec(r), Z, [s["v"] for s in sc][0] if sc else Z])
    a = b.agent(at, lin=r.choice([vec(r), vec(r), Z])); a2 = b.agent(r.choice([vec(r), at]))
    hist = [vec(r) for _ in range(r.choice([0, 1, 2, 3, 8, 8, r.randint(9, 90), r.choice([300, 1500]) if r.random() < .3 else 5]))]
    goal = r.choice([vec(r), vec(r), Z, at, hist[-1] if hist else Z])
    if hist and r.random() < .25: hist = r.choice([[hist[0]] * len(hist), [h for h in hist for _ in range(2)], [Z] + hist, hist + [at]])
    G = "G1" in obs
    for _ in range(2):
        sv = r.choice(["", "", "fig", "run_7", "f", "a.b", "run 2.5", "x.png", "0", "UPPER-lower"])
        sh, td = r.random() < .5, (r.random() < .5 and not G)
        c = r.random()
        if c < .35: b.op("plot.config", l=obs, save=sv, show=sh, td=td)
        elif c < .7: b.op("plot.config", a=a, l=obs, goal=goal, hist=hist, save=sv, show=sh, td=td)
        else: b.op("plot.guard", a=a, b=a2, l=obs, goal=goal, hist=hist, save=sv, show=sh, td=td if not G else True) if not G else b.op("plot.config", a=a, l=obs, goal=goal, hist=hist, save=sv, show=sh, td=False)
    b.op("plot.agent", a=a, axis=r.choice(["xy", "xz"]), **r.choice([{}, {"color": "r"}]))
    b.op("plot.traj", goal=goal, hist=hist or [vec(r)], axis=r.choice(["xy", "xz"]))
    b.op("plot.obstacles", l=obs, axis="xy" if G else r.choice(["xy", "xz"]))
    if r.random() < .3 and not G:
        e = b.env(False, obs)
        b.op("plot.config", l=e, env=e, save="", show=False, td=False)
    return b

def texts(r, k):
    b = B(r, "texts%d" % k)
    nm = ["box", "tree", "wall"]
    for i in range(3):
        e = b.ell(nm[i], vec(r), quat(r), lens(r, .05, 4), curvature(r), vec(r), vec(r), vec(r), margin(r))
        b.op("q.print", h=e)
        b.op("q.area", h=e)
        b.op("q.area", h=e, sm=r.random() < .5)
        ax = lens(r, .1, 5)
        if r.random() < .3: ax = [r.uniform(3, 8), r.uniform(.2, .5), r.uniform(.2, 3)]
        b.op("o.set_axis", h=e, v=ax); b.op("q.area", h=e, sm=False)
        p = ax[:]; r.shuffle(p)
        b.op("o.set_axis", h=e, v=p); b.op("q.area", h=e, sm=False)
        b.op("o.set_axis", h=e, v=mul(2.0, p)); b.op("q.area", h=e, sm=False)
        b.op("q.print", h=e)
    b.op("obs.new", h="o1", kind="xyz", name="plain", v=vec(r), m=.25)
    b.op("q.print", h="o1")
    a = b.agent(vec(r), vec(r), abs(real(r)), quat(r), vec(r))
    b.op("agent.print", h=a)
    s = b.state(vec(r), quat(r), vec(r), vec(r)); b.op("state.print", h=s)
    p = b.pose(vec(r), quat(r)); b.op("pose.print", h=p)
    # values of every size
    def wide(): return [r.choice([-1, 1]) * 10 ** r.uniform(-9, 7) for _ in range(3)]
    p = b.pose(wide(), quat(r)); b.op("pose.print", h=p)
    s = b.state(wide(), quat(r), wide(), wide()); b.op("state.print", h=s)
    e = b.ell("grain", wide(), quat(r), [abs(x) for x in wide()], None, wide(), wide(), wide(), [abs(x) for x in wide()])
    b.op("q.print", h=e)
    a = b.agent(wide(), wide(), abs(wide()[0]), quat(r), wide())
    b.op("agent.print", h=a)
    if r.random() < .5:
        sp = cluster(r, r.choice([2, 3, 5, 6, 8]))
        mem = build(b, r, sp)
        b.op("agg.new", h="G1", mem=mem)
        b.op("q.print", h="G1")
    return b

# ================================================================ environments
def environments(r, k):
    pool = names(r, 6)
    if r.random() < .15: pool = [n + r.choice(["_of_a_rather_long_name", "_" * 40, " number 17 in the hall on the left"]) for n in pool]
    agn = ["aggregate_" + "_".join(sorted(r.sample(pool, r.choice([2, 2, 3])))) for _ in range(3)]
    b = B(r, "env%d" % k, names=pool + agn + ["aggregate", "nobody"])
    reg = {}
    objs = {}
    cur = {}
    def newobj(n):
        v, q, ax, m = flat(r, spread=3.0, lo=.4, hi=1.3)
        e = b.ell(n, v, q, ax, m=m, lin=[r.uniform(-1, 1), 0.0, 0.0] if r.random() < .3 else None)
        objs[e] = (v, q, ax, m); cur[e] = n
        return e
    es = []
    def newenv(agg=None):
        h = b.h("E")
        if agg is None and r.random() < .5: b.op("env.new", h=h); agg = True
        else:
            agg = r.random() < .6 if agg is None else agg
            b.op("env.new", h=h, agg=agg)
        es.append(h); reg[h] = {}
    newenv()
    if r.random() < .4: newenv()
    for n in pool[:3]:
        o = newobj(n)
        b.op("env.add", h=es[0], o=o); reg[es[0]][n] = o
    a = b.agent([r.uniform(-4, 4), r.uniform(-4, 4), 0.0], lin=dir2(r))
    def live(e):  # current names within an environment, to keep them distinct
        return {cur[o] for o in reg[e].values()}
    for _ in range(r.choice([25, 40])):
        e = r.choice(es)
        c = r.random()
        if c < .16:
            n = r.choice(pool)
            free = [o for o in objs if cur[o] == n]
            o = r.choice(free) if free and r.random() < .5 else newobj(n)
            nm = cur[o]
            if nm in reg[e]: b.op("env.add", h=e, o=o)               # has to be refused
            elif nm not in live(e) and o not in reg[e].values():
                b.op("env.add", h=e, o=o); reg[e][nm] = o
        elif c < .26:
            n = r.choice(list(reg[e]) if reg[e] and r.random() < .7 else pool + agn)
            b.op("env.remove", h=e, name=n)
            reg[e].pop(n, None)
        elif c < .33:
            b.op("env.get", h=e, name=r.choice(pool + agn + ["aggregate", ""]))
            if len(reg[e]) > 1: b.op("env.get", h=e, name=r.choice(list(reg[e])), also=r.choice(list(reg[e])))
        elif c < .4: b.op("env.set_agg", h=e, v=r.random() < .6)
        elif c < .58: b.op("env.update", h=e)
        elif c < .7 and objs:
            o = r.choice(list(objs))
            v, q, ax, m = objs[o]
            v = [r.uniform(-3, 3), r.uniform(-3, 3), 0.0]
            if r.random() < .5 and len(objs) > 1:
                p = objs[r.choice([x for x in objs if x != o])]
                d = dir2(r)
                v = add(p[0], mul(reach(p[1], p[2], p[3], d) + reach(q, ax, m, d) - r.uniform(.2, .6), d))
            objs[o] = (v, q, ax, m)
            b.op("o.set_position", h=o, v=v)
        elif c < .74 and objs:
            o = r.choice(list(objs))
            v, q, ax, m = objs[o]
            if r.random() < .5: q = pquat(r); b.op("o.set_orientation", h=o, q=q)
            else: ax = lens(r, .4, 1.4); b.op("o.set_axis", h=o, v=ax)
            objs[o] = (v, q, ax, m)
        elif c < .77 and objs:   # rename to a name nobody uses
            o = r.choice(list(objs))
            free = [n for n in pool + ["uma", "vic"] if n not in cur.values()]
            if free:
                cur[o] = r.choice(free)
                b.op("o.set_name", h=o, name=cur[o])
        elif c < .8 and len(es) < 3: newenv()
        elif c < .82 and len(es) < 4:
            h = b.h("E")
            b.op("env.copy", h=h, src=e)
            es.append(h); reg[h] = dict(reg[e])
        elif c < .86: b.op("o.set_ref", h="@%s:%d" % (e, r.randrange(3)), v=[r.uniform(-3, 3), r.uniform(-3, 3), 0.0])
        elif c < .88 and objs: b.op("o.set_ref", h=r.choice(list(objs)), v=[r.uniform(-3, 3), r.uniform(-3, 3), 0.0])
        elif c < .95:
            p = [r.uniform(-4, 4), r.uniform(-4, 4), 0.0]
            h = "#%s:%d" % (e, r.randrange(4))
            d = r.random()
            if d < .3: b.op("q.dist", h=h, v=p)
            elif d < .55: b.op("q.inside", h=h, v=p)
            elif d < .65: b.op("q.closed", h=h)
            elif d < .75: b.op("q.inter", h=h, o=r.choice(list(objs)) if objs else "@%s:0" % e)
            else:
                b.op("agent.set_position", h=a, v=p); b.op("q.normal", h=h, a=a)
        else:
            b.op("mod.vel", a=a, e=e, **r.choice([{}, {"local": True}, {"local": False, "rep": True}]))
    # what a fresh environment with copies publishes
    e = r.choice(es)
    b.op("env.update", h=e)
    cp = [[o, o + "c"] for n, o in reg[e].items()]
    if all(cur[o] == n for n, o in reg[e].items()):
        b.op("env.clone_updated", h="F1", src=e, copies=cp)
        b.relate("samelists", ["C05"], "an environment publishes what a fresh one would", x=e, y="F1")
    b.op("env.update", h=e)
    # registered once more under another name: only looked up and removed from here on
    for o in r.sample(list(reg[e].values()), min(len(reg[e]), 2)) if r.random() < .4 else []:
        n = r.choice([x for x in pool + ["uma"] if x not in reg[e]] or ["vic"])
        b.op("o.set_name", h=o, name=n)
        b.op("env.add", h=e, o=o); reg[e][n] = o
        for x in reg[e]: b.op("env.get", h=e, name=x)
        n = r.choice([x for x in reg[e] if reg[e][x] == o])
        b.op("env.remove", h=e, name=n); del reg[e][n]
        b.op("env.get", h=e, name=n)
        for x in reg[e]: b.op("env.get", h=e, name=x)
    return b

def chains(r, k):
    """Many obstacles along a line or a branching path, linked or not, found in any order: groups are merged again and again."""
    b = B(r, "chains%d" % k, nohull=True)
    n = r.choice([6, 7, 8, 9])
    w, link = r.uniform(.6, 1.2), r.choice([.6, .8, .9, 1.0])
    pts = [[0.0, 0.0, 0.0]]
    t = r.uniform(-3, 3)
    for i in range(1, n):
        gap = 1.7 * w if r.random() < link else 2.4 * w
        t += r.uniform(-.4, .4)
        pts.append(add(pts[-1], [gap * math.cos(t), gap * math.sin(t), 0.0]))
    for rep in range(2):
        order = list(range(n)); r.shuffle(order)
        ns = sorted(names(r, n))
        es = [b.ell(ns[i], pts[j], None, [w, w, w]) for i, j in enumerate(order)]
        if r.random() < .5: b.op("aggr", l=es)
        else: b.env(True, es)
    return b

def islands(r, k):
    """Groups that are known beforehand, far from each other: every aggregate is looked up by its name."""
    m = r.randint(2, 4)
    ns = names(r, 6)
    ns = [n + "_" + str(i) for n in ns for i in range(2)]
    if r.random() < .4: ns = [n + r.choice(["", "_of_a_rather_long_name", "_" * 40, " number 17 in the hall on the left"]) for n in ns]
    r.shuffle(ns)
    gs = []
    for i in range(m):
        c = r.choice([1, 2, 2, 3, 4]) if len(ns) > 4 else 1
        gs.append([ns.pop() for _ in range(c)])
    agn = ["aggregate_" + "_".join(sorted(g)) for g in gs]
    b = B(r, "islands%d" % k, names=sum(gs, []) + agn + ["aggregate"], nohull=True)
    at, obs = {}, {}
    for i, g in enumerate(gs):
        t, w = r.uniform(-3, 3), r.uniform(.4, 1.0)
        for j, n in enumerate(g): at[n] = [12.0 * i + 1.4 * w * j * math.cos(t), 1.4 * w * j * math.sin(t), 0.0]
        for n in g: obs[n] = b.ell(n, at[n], pquat(r), [w, w, w])
    order = list(obs); r.shuffle(order)
    e = b.env(True, [obs[n] for n in order], update=False)
    def lookups():
        for n in r.sample(agn, min(3, m)): b.op("env.get", h=e, name=n)
        b.op("env.get", h=e, name=r.choice(order))
    lookups(); b.op("env.update", h=e); lookups()
    b.op("env.set_agg", h=e, v=False); lookups(); b.op("env.set_agg", h=e, v=True); lookups()
    n = r.choice(order)
    b.op("o.set_ref", h="@%s:%d" % (e, r.randrange(m)), v=gvec(r))
    if r.random() < .3: b.op("env.remove", h=e, name=r.choice(agn)); lookups(); b.op("env.update", h=e)
    if r.random() < .5: b.op("env.remove", h=e, name=n)
    else: b.op("o.set_position", h=obs[n], v=add(at[n], [0.0, 40.0, 0.0]))
    lookups(); b.op("env.update", h=e); lookups()
    return b

def groupings(r, k):
    """Sets of obstacles with many overlaps, aggregated in different orders and under different names."""
    rough = r.random() < .4
    b = B(r, "groupings%d" % k, **({"nohull": True} if rough else {}))
    n = r.choice([3, 4, 5, 6, 7])
    sp = []
    while len(sp) < n:
        if sp and r.random() < .6: sp.append(second(r, r.choice(sp), gap=r.choice([-.3, -.2, .05, .3])))
        else: sp.append(flat(r, spread=3.5, lo=.4, hi=1.5))
    if rough: sp = [uneven(r, s) for s in sp]
    for rep in range(2):
        order = list(range(n)); r.shuffle(order)
        ns = names(r, n)
        es = [b.ell(ns[i], sp[j][0], sp[j][1], sp[j][2], m=sp[j][3]) for i, j in enumerate(order)]
        if r.random() < .5: b.op("aggr", l=es)
        else:
            e = b.env(True, es)
            # the same reference point for all of them: the place some of them have in common, or that of one
            at = dict(zip(es, [sp[j][0] for j in order]))
            for _ in range(2):
                some = sorted(es, key=lambda x: ns[es.index(x)])
                c = r.random()
                if c < .4: some = some[:r.randint(1, n)]
                elif c < .8: some = r.sample(some, r.randint(1, n))
                w = mul(1.0 / len(some), [sum(at[x][i] for x in some) for i in range(3)])
                o = r.choice(es)
                if r.random() < .6: at[o] = add(at[o], [r.uniform(-.1, .1), r.uniform(-.1, .1), 0.0]); b.op("o.set_position", h=o, v=at[o])
                for x in es: b.op("o.set_ref", h=x, v=w)
                b.op("env.update", h=e)
    return b

def owners(r, k):
    """Obstacles nobody but the environment holds on to: they live as long as it has them or publishes them, and no longer matter afterwards."""
    pool = names(r, r.choice([4, 6, 8]))
    agn = ["aggregate_" + "_".join(sorted(r.sample(pool, r.choice([2, 2, 3])))) for _ in range(2)]
    b = B(r, "owners%d" % k, names=pool + agn, nohull=True)
    es, reg, at = [b.h("E")], {}, {}
    if r.random() < .4: b.op("env.new", h=es[0])
    else: b.op("env.new", h=es[0], agg=r.random() < .6)
    reg[es[0]] = {}
    def new(e, n):
        if at and r.random() < .6:
            v, w = r.choice(list(at.values()))
            x = r.uniform(.4, 1.2); d = mul((w + x) * r.choice([.7, .9, 1.3]), dir2(r)); p = add(v, d)
        else: x, p = r.uniform(.4, 1.2), [r.uniform(-3, 3), r.uniform(-3, 3), 0.0]
        o = b.ell(n, p, pquat(r), [x, x, x])
        at[o] = (p, x)
        b.op("env.add", h=e, o=o); reg[e][n] = o
        if r.random() < .85: b.op("o.release", h=o)
    for n in r.sample(pool, r.randint(2, len(pool))): new(es[0], n)
    for _ in range(r.choice([12, 20, 30])):
        e = r.choice(es)
        c = r.random()
        if c < .3: b.op("env.update", h=e)
        elif c < .5 and reg[e]:
            n = r.choice(list(reg[e]))
            b.op("env.remove", h=e, name=n)
            o = reg[e].pop(n)
            if not any(o in reg[x].values() for x in es): at.pop(o, None)
            if r.random() < .4: b.op("env.update", h=e)
        elif c < .56: b.op("env.remove", h=e, name=r.choice([n for n in pool if n not in reg[e]] + agn))
        elif c < .68:
            free = [n for n in pool if n not in reg[e]]
            if free: new(e, r.choice(free))
        elif c < .8:
            l = [o for o in at if any(o in reg[x].values() for x in es)]
            if l:
                o = r.choice(l)
                if r.random() < .6:
                    p = add(at[o][0], [r.gauss(0, .6), r.gauss(0, .6), 0.0]); at[o] = (p, at[o][1])
                    b.op("o.set_position", h=o, v=p)
                else: b.op("o.set_lin", h=o, v=[r.uniform(-1, 1), r.uniform(-1, 1), 0.0])
        elif c < .84: b.op("env.set_agg", h=e, v=r.random() < .6)
        elif c < .87 and len(es) < 3:
            h = b.h("E"); b.op("env.copy", h=h, src=e); es.append(h); reg[h] = dict(reg[e])
        elif c < .95: b.op("q.dist", h="#%s:%d" % (e, r.randrange(4)), v=[r.uniform(-9, 9), r.uniform(5, 9), 0.0])
        else: b.op("env.get", h=e, name=r.choice(pool + agn))
    b.op("env.update", h=r.choice(es))
    return b

def mixed(r, k):
    """Registries of obstacles of every kind, not grouped: plain ones, ellipsoids, hulls and aggregates somebody built."""
    pool = names(r, 6)
    b = B(r, "mixed%d" % k, names=pool + ["aggregate", "aggregate_m1_m2"], nohull=True)
    objs, plain, alone = {}, 0, []
    def new():
        nonlocal plain
        free = [n for n in pool if n not in objs.values()] or pool
        c, n = r.random(), r.choice(free)
        p = [r.uniform(-5, 5), r.uniform(-5, 5), 0.0]
        if c < .3:
            h = "o%d" % (len(objs) + 1)
            b.op("obs.new", h=h, kind="xyz", name=n, v=p)
        elif c < .55: h = b.ell(n, p, pquat(r), lens(r))
        elif c < .8:
            h = "H%d" % (len(objs) + 1)
            ms = [b.ell(x, add(p, [i * .8, 0.0, 0.0]), ID, [1.0, 1.0, 1.0]) for i, x in enumerate(["m1", "m2"])]
            if r.random() < .5: b.op("hull.new", h=h, mem=ms)
            else: b.op("hull.new", h=h); b.op("hull.compute", h=h, mem=ms, inside=False, minr=.5)
            b.op("o.set_name", h=h, name=n)
        else:
            h = "G%d" % (len(objs) + 1)
            ms = [b.ell(x, add(p, [i * .8, 0.0, 0.0]), ID, [1.0, 1.0, 1.0]) for i, x in enumerate(["m1", "m2"])]
            b.op("agg.new", h=h, mem=ms)
            n = "aggregate_m1_m2"
            if r.random() < .5: n = r.choice(free); b.op("o.set_name", h=h, name=n)
        objs[h] = n
        return h
    es = [b.env(False, [])]
    reg = {es[0]: {}}
    for _ in range(r.choice([12, 20])):
        e = r.choice(es)
        c = r.random()
        if c < .35:
            o = r.choice(list(objs)) if objs and r.random() < .3 else new()
            if objs[o] in reg[e] or o not in reg[e].values():
                b.op("env.add", h=e, o=o)
                reg[e].setdefault(objs[o], o)
        elif c < .5:
            n = r.choice(list(reg[e]) if reg[e] and r.random() < .7 else pool + ["aggregate_m1_m2"])
            b.op("env.remove", h=e, name=n); reg[e].pop(n, None)
        elif c < .75: b.op("env.update", h=e)
        elif c < .85: b.op("env.get", h=e, name=r.choice(pool + ["aggregate_m1_m2", "aggregate"]))
        elif c < .9:
            b.op("env.set_agg", h=e, v=True); b.op("env.get", h=e, name=r.choice(pool + ["aggregate_m1_m2"])); b.op("env.set_agg", h=e, v=False)
        elif c < .95 and objs: b.op("o.set_position", h=r.choice(list(objs)), v=[r.uniform(-5, 5), r.uniform(-5, 5), 0.0])
        elif len(es) < 3: h = b.h("E"); b.op("env.copy", h=h, src=e); es.append(h); reg[h] = dict(reg[e])
    for e in es: b.op("env.update", h=e)
    return b

FAMILIES = {f.__name__: f for f in (poses, attrs, agents, levels, normals, outlines, overlaps, hulls, aggregates, paths, weights, matrices,
                                    law, atsurface, sight, covariance, repulsion, degenerate, planars, loops, numeric, drawing, figures,
                                    texts, environments, groupings, islands, chains, owners, mixed)}
# the same scenes in another size and place: every length of a script is scaled, every position shifted
ZOOMED = {"levels", "normals", "outlines", "overlaps", "hulls", "aggregates", "paths", "matrices", "law", "atsurface", "sight", "covariance",
          "repulsion", "degenerate", "planars", "environments", "groupings", "chains", "drawing"}
PLACES = {"state.new": ("v",), "pose.new": ("v",), "ell.new": ("v", "ref"), "obs.new": ("v", "ref"), "agent.path": ("v",), "hull.compute": ("ref",),
          "q.dist": ("v",), "q.inside": ("v",), "q.chord": ("v", "w"), "o.set_ref": ("v",)}
LENGTHS = {"state.new": ("lin",), "ell.new": ("m", "m3"), "obs.new": ("m", "m3"), "q.dist": ("m", "m3"), "agent.new": ("m",), "agent.set_margin": ("m",),
           "o.set_axis": ("v",), "hull.compute": ("minr",), "hull.new": ("minr",), "o.set_lin": ("v",), "agent.set_lin": ("v",), "state.set_lin": ("v",)}
def zoom(ops, f, s):
    out = []
    for o in ops:
        o = dict(o)
        if o["op"] == "hull.new": o = {"inside": False, "res": 500, "minr": .5, **o}
        o.pop("exact", None)
        place = PLACES.get(o["op"], ("v",) if o["op"].split(".")[-1] in ("set_position", "set_position3") else ())
        for k in place:
            if k in o: o[k] = [f * x + y for x, y in zip(o[k], s)]
        for k in LENGTHS.get(o["op"], ()):
            if k in o: o[k] = [f * x for x in o[k]] if isinstance(o[k], list) else f * o[k]
        out.append(o)
    return out
# questions asked once more after something they depend on was changed
ASKED = {"q.dist", "q.inside", "q.chord", "q.sample", "q.normal", "q.agentq", "q.dist_agent", "q.repv", "q.genrep", "q.repf", "q.inter", "q.interlist",
         "mod.matrix", "mod.basis", "mod.vel", "draw", "q.area", "q.print", "q.closed", "agent.in_obs", "agent.env_inter", "agent.path", "plot.config"}
REPEATED = {"levels", "normals", "outlines", "overlaps", "hulls", "aggregates", "paths", "matrices", "law", "atsurface", "sight", "covariance", "repulsion",
            "degenerate", "planars", "drawing", "figures", "texts"}
CURVED = {"levels", "normals", "matrices", "law", "atsurface", "covariance", "repulsion"}
ANSWERS = {"q.dist": ["C10", "C15", "C16"], "q.dist_agent": ["C10", "C15", "C16"], "q.agentq": ["C10", "C11", "C16"], "q.inside": ["C12", "C16"], "q.chord": ["C12"],
           "q.sample": ["C12"], "q.normal": ["C11", "C16"], "q.repv": ["C23"], "q.genrep": ["C23"], "q.repf": ["C23"], "q.inter": ["C13"], "q.interlist": ["C13"],
           "q.area": ["C30"], "q.closed": ["C14", "C15"], "agent.in_obs": ["C13"], "agent.env_inter": ["C13"], "agent.path": ["C14"],
           "mod.matrix": ["C18"], "mod.basis": ["C18"], "mod.vel": ["C19", "C20", "C21", "C22", "C23", "C24"]}
def same(b, r):
    """What was asked in between does not matter to an answer."""
    asked, places, at = [], [], {}
    for o in b.ops:
        if o["op"] == "agent.set_position": at[o["h"]] = o["v"]
        if o["op"] in ANSWERS and not o.get("planar"):
            q = {k: x for k, x in o.items() if k not in ("reg", "exact")}
            asked.append(q); places.append(at.get(q["h"] if q["op"].startswith("agent.") else q.get("a")))
    for n in r.sample(range(len(asked)), min(len(asked), 3)):
        q, p = asked[n], places[n]
        near = lambda p: [p[0] + r.gauss(0, .02), p[1] + r.gauss(0, .02), p[2]] if r.random() < .6 else [p[0] + r.gauss(0, 2), p[1] + r.gauss(0, 2), p[2]]
        ag = q["h"] if q["op"].startswith("agent.") else q.get("a")
        if p: b.op("agent.set_position", h=ag, v=p)
        b.ops.append(dict(q, reg="same1"))
        for _ in range(r.choice([1, 2])):
            o = dict(q)
            if "v" in o: o["v"] = near(o["v"])
            if p: b.op("agent.set_position", h=ag, v=near(p))
            others = [x for x in asked if x["op"] == q["op"] and "a" not in x]
            if others and not p and r.random() < .3: o = dict(r.choice(others))
            b.ops.append(o)
        if p: b.op("agent.set_position", h=ag, v=p)
        b.ops.append(dict(q, reg="same2"))
        b.relate("sameb", ANSWERS[q["op"]], "the same question has the same answer", x="same1", y="same2")
def again(b, r, family):
    for o in b.ops:
        if o.get("h") in b.known:
            for op, k in (("o.set_position", "v"), ("o.set_orientation", "q"), ("o.set_axis", "axis"), ("o.set_curv", "curv"), ("o.set_name", "name")):
                if o["op"] == op: b.known[o["h"]][k] = o.get("v", o.get("q", o.get("name")))
    asked = [{k: x for k, x in o.items() if k not in ("reg", "exact")} for o in b.ops if o["op"] in ASKED]
    for q in r.sample(asked, min(len(asked), r.choice([3, 6, 9]))):
        ag = q["h"] if q["op"].startswith("agent.") else q.get("a")
        if isinstance(ag, str) and r.random() < .3:
            c = r.random()
            if c < .35: o = dict(op="agent.set_margin", h=ag, m=r.choice([0.0, .05, .3, r.uniform(0, 1)]))
            elif c < .7: o = dict(op="agent.set_lin", h=ag, v=r.choice([Z, dir2(r), [r.uniform(-2, 2), r.uniform(-2, 2), 0.0]]))
            else:
                ps = [x["v"] for x in b.ops if x["op"] == "agent.set_position" and x["h"] == ag]
                if not ps: continue
                p = r.choice(ps)
                o = dict(op="agent.set_position", h=ag, v=[p[0] + r.choice([0.0, r.gauss(0, .1)]), p[1] + r.gauss(0, .1), p[2]])
            b.ops += [dict(q), o, dict(q)]
            continue
        t = [x for x in [q.get("h"), q.get("o")] + (q["l"] if isinstance(q.get("l"), list) else []) if x in b.known]
        if not t or r.random() < .2: t = list(b.known)
        if not t: return
        h = r.choice(t); w = b.known[h]
        kinds = ["position", "orientation", "orientation", "axis", "axis"] + (["curv"] if family in CURVED else []) \
            + (["name"] * 2 if q["op"] in ("q.print", "draw", "plot.config") else []) + (["lin", "ang"] if q["op"] == "mod.vel" else [])
        kd = r.choice(kinds + (["position"] * 3 if q.get("h", "").startswith("G") else []))
        level = not (w["q"][1] or w["q"][2])
        n = math.sqrt(sum(x * x for x in w["q"]))
        if kd == "position" and "v" in q and r.random() < .4: old, new = dict(v=w["v"]), dict(v=[q["v"][0] + r.gauss(0, .1), q["v"][1] + r.gauss(0, .1), w["v"][2]])
        elif kd == "position": old, new = dict(v=w["v"]), dict(v=add(w["v"], [r.gauss(0, .3), r.gauss(0, .3), 0.0 if level else r.gauss(0, .3)]))
        elif kd == "orientation":
            old = dict(q=w["q"])
            new = dict(q=r.choice([pquat(r) if level else quat(r), [w["q"][0]] + [-x for x in w["q"][1:]]]))
        elif kd == "axis":
            x = w["axis"][:]
            if r.random() < .5: r.shuffle(x)
            else: x = mul(r.choice([r.uniform(.7, 1.4), r.uniform(.4, 2.5)]), x)
            old, new = dict(v=w["axis"]), dict(v=x)
        elif kd == "curv": old, new = dict(v=w["curv"]), dict(v=[float(r.randint(1, 3)) for _ in range(3)])
        elif kd == "name": old, new = dict(name=w["name"]), dict(name=r.choice(["", "renamed", w["name"] + "2"]))
        else: old, new = None, dict(v=[0.0, 0.0, r.uniform(-1, 1)] if kd == "ang" else [r.uniform(-1, 1), r.uniform(-1, 1), 0.0])
        op = "o.set_" + kd
        b.ops += [dict(q), dict(op=op, h=h, **new), dict(q)]
        if old and r.random() < .6: b.ops += [dict(op=op, h=h, **old), dict(q)]
        else:
            for k, x in new.items():
                if kd in ("position", "orientation", "axis", "curv", "name"): w[{"position": "v", "orientation": "q"}.get(kd, kd)] = x
def own(ops, r):
    """Obstacles are left to the environment alone after they were added to it: nobody else holds on to them."""
    called, used, out, gone = {}, {}, [], set()
    for o in ops:
        h = o.get("h")
        if o["op"] in ("ell.new", "obs.new", "o.set_name", "hull.new"): called.setdefault(h, set()).update([o.get("name")] + list(called.get(o.get("src"), [])))
    for i, o in enumerate(ops):
        def walk(x):
            if isinstance(x, str): used[x] = i
            elif isinstance(x, list): [walk(y) for y in x]
        for k, x in o.items():
            if k not in ("op", "name"): walk(x)
    for i, o in enumerate(ops):
        out.append(o)
        if o["op"] != "env.add" or o["o"] in gone or o["o"] not in called: continue
        mine = called[o["o"]]
        if any(h != o["o"] and mine & ns for h, ns in called.items()): continue
        if any(used[o["o"]] > j for j, p in enumerate(ops) if j > i and p["op"] == "env.remove" and p["name"] in mine): continue
        gone.add(o["o"])
        out.append(dict(op="o.release", h=o["o"]))
    return out
OWNED = {"environments", "groupings", "islands", "chains", "mixed"}
def make(family, n, seed, start=0):
    out = []
    for k in range(start, start + n):
        r = random.Random("%s/%s/%s" % (seed, family, k))
        b = FAMILIES[family](r, k)
        if b is None: continue
        if family in REPEATED and r.random() < .5: again(b, r, family)
        if family in REPEATED and r.random() < .4: same(b, r)
        if family in OWNED and r.random() < .45: b.ops = own(b.ops, r)
        if family in ZOOMED and r.random() < ZOOM:
            f = r.choice([1.0, 10 ** r.uniform(-1.3, 1.3), 10 ** r.uniform(-.7, .7)])
            s = [r.uniform(-200, 200) for _ in range(3)] if f == 1.0 or r.random() < .5 else Z
            out.append(zoom(b.ops, f, s))
        else: out.append(b.ops)
    return out
ZOOM = .18
if __name__ == "__main__":
    import sys
    for ops in make(sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "1"):
        for o in ops: print(dumps(o))
