"""Script builder and random values shared by the generators."""
import json, math, random

class B:
    """A list of operations, with fresh handles."""
    def __init__(self, rng, tag, names=(), **kw):
        self.r, self.ops, self.n, self.known = rng, [], {}, {}
        r = {"op": "reset", "id": tag}
        if names:
            r["names"] = list(names)
        r.update(kw)
        self.ops.append(r)
    def h(self, p):
        self.n[p] = self.n.get(p, 0) + 1
        return p + str(self.n[p])
    def op(self, op, **kw):
        self.ops.append(dict(op=op, **kw))
    # -------------------------------------------------------------- objects
    def pose(self, v, q):
        h = self.h("P")
        self.op("pose.new", h=h, kind="pq", v=v, q=q)
        return h
    def state(self, v, q=None, lin=None, ang=None):
        h = self.h("S")
        self.op("state.new", h=h, kind="full", v=v, q=q or ID, lin=lin or Z, ang=ang or Z)
        return h
    def ell(self, name, v, q=None, axis=None, curv=None, lin=None, ang=None, ref=None, m=None):
        """An ellipsoid, built by a random one of the equivalent ways."""
        h = self.h("e")
        kw = {}
        if m is not None:
            kw["m3" if isinstance(m, list) else "m"] = m
        if self.r.random() < .5:
            s = self.state(v, q, lin, ang)
            if ref is not None:
                self.op("ell.new", h=h, kind="sref", name=name, s=s, ref=ref, **kw)
            else:
                self.op("ell.new", h=h, kind="state", name=name, s=s, **kw)
        else:
            self.op("ell.new", h=h, kind="xyz", name=name, v=v, **kw)
            if q is not None: self.op("o.set_orientation", h=h, q=q)
            if lin is not None: self.op("o.set_lin", h=h, v=lin)
            if ang is not None: self.op("o.set_ang", h=h, v=ang)
            if ref is not None: self.op("o.set_ref", h=h, v=ref)
        self.known[h] = dict(v=v, q=q or ID, axis=axis or [1.0, 1.0, 1.0], curv=curv or [1.0, 1.0, 1.0], name=name)
        if axis is not None: self.op("o.set_axis", h=h, v=axis)
        if curv is not None: self.op("o.set_curv", h=h, v=curv)
        return h
    def agent(self, v, lin=None, m=None, q=None, ang=None):
        h = self.h("a")
        kw = {} if m is None else {"m": m}
        if self.r.random() < .5:
            self.op("agent.new", h=h, kind="state", s=self.state(v, q, lin, ang), **kw)
        else:
            self.op("agent.new", h=h, kind="def", **kw)
            if q is not None: self.op("agent.set_orientation", h=h, q=q)
            if ang is not None: self.op("agent.set_ang", h=h, v=ang)
            steps = [("agent.set_position", v)] + ([("agent.set_lin", lin)] if lin is not None else [])
            self.r.shuffle(steps)
            for o, x in steps: self.op(o, h=h, v=x)
        return h
    def env(self, agg, obs, update=True):
        h = self.h("E")
        if agg and self.r.random() < .5: self.op("env.new", h=h)
        else: self.op("env.new", h=h, agg=agg)
        for o in obs: self.op("env.add", h=h, o=o)
        if update: self.op("env.update", h=h)
        return h
    def relate(self, kind, props, label, **kw):
        self.op("relate", kind=kind, props=list(props), label=label, **kw)

Z = [0.0, 0.0, 0.0]
ID = [1.0, 0.0, 0.0, 0.0]
def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def mul(s, a): return [s * x for x in a]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def norm(a): return math.sqrt(dot(a, a))
def unit(a):
    n = norm(a)
    return [x / n for x in a] if n > 0 else a
def yaw(t): return [math.cos(t / 2), 0.0, 0.0, math.sin(t / 2)]
def qmul(a, b):
    w, x, y, z = a; s, t, u, v = b
    return [w*s-x*t-y*u-z*v, w*t+x*s+y*v-z*u, w*u-x*v+y*s+z*t, w*v+x*u-y*t+z*s]
def qunit(q):
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]
def rot(q, v):
    q = qunit(q)
    u = q[1:]
    cr = lambda a, b: [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
    t = mul(2, cr(u, v))
    return add(v, add(mul(q[0], t), cr(u, t)))

# ------------------------------------------------------------------ random values
def real(r, s=3.0):
    c = r.random()
    if c < .12: return r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, -0.0])
    if c < .16: return r.uniform(-1, 1) * 10 ** r.uniform(-5, 4)
    return r.uniform(-s, s)
def vec(r, s=3.0): return [real(r, s) for _ in range(3)]
def gvec(r, s=3.0): return [r.uniform(-s, s) for _ in range(3)]   # generic
def direction(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        if norm(v) > 1e-3: return unit(v)
def dir2(r):
    c = r.random()
    if c < .2:
        return r.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0]])
    t = r.uniform(-math.pi, math.pi)
    return [math.cos(t), math.sin(t), 0.0]
def quat(r, normalised=False):
    c = r.random()
    if c < .1: q = ID
    elif c < .25: q = yaw(r.uniform(-math.pi, math.pi))
    elif c < .32: q = r.choice([[0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [-1.0, 0.0, 0.0, 0.0],
                               [0.5, 0.5, 0.5, 0.5], [0.0, 0.6, 0.8, 0.0], [math.sqrt(.5), math.sqrt(.5), 0.0, 0.0]])
    elif c < .39: q = qunit([1.0] + [r.gauss(0, 1) * 10 ** -r.uniform(1, 8) for _ in range(3)])      # turns by hardly anything
    else: q = qunit([r.gauss(0, 1) for _ in range(4)])
    if not normalised and r.random() < .3:
        k = r.choice([2.0, 0.5, 1.5, -1.0, 10.0, 0.01, -3.0, 10 ** r.uniform(-6, -2), 10 ** r.uniform(1, 5)])
        q = [k * x for x in q]
    return q
def pquat(r):
    """Turned about the vertical only."""
    c = r.random()
    if c < .15: return ID
    if c < .3: return r.choice([[0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, -1.0], [-1.0, 0.0, 0.0, 0.0], yaw(math.pi / 2), yaw(-math.pi / 2),
                                yaw(math.pi / 4), [-math.cos(.3), 0.0, 0.0, -math.sin(.3)]])
    if c < .36: return yaw(r.choice([0.0, math.pi, -math.pi / 2]) + r.choice([-1, 1]) * 10 ** -r.uniform(1, 8))
    return yaw(r.uniform(-math.pi, math.pi))
def lens(r, lo=.3, hi=3.0):
    if r.random() < .15:
        a = r.uniform(lo, hi)
        return [a, a, a]
    return [r.uniform(lo, hi) for _ in range(3)]
def sized(r):
    """Half-axes of every size, very thin ones included."""
    c = r.random()
    if c < .7: return lens(r)
    if c < .85: return mul(10 ** r.uniform(-3, 2.5), lens(r))
    l = lens(r)
    l[r.randrange(3)] = 10 ** r.uniform(-3.8, -1)
    return l
def margin(r):
    c = r.random()
    if c < .35: return None
    if c < .6: return r.uniform(0, .8)
    return [r.uniform(0, .8) for _ in range(3)]
def m3(m): return Z if m is None else m if isinstance(m, list) else [m, m, m]
def curvature(r):
    c = r.random()
    if c < .5: return [1.0, 1.0, 1.0]
    if c < .7: return [2.0, 2.0, 2.0]
    if c < .95: return [float(r.choice([1, 1, 2, 3, 4])) for _ in range(3)]
    return [float(r.choice([4, 5, 6])) for _ in range(3)]
WORDS = ["arm", "base", "car", "desk", "elk", "fox", "gate", "hut", "ivy", "jar", "kite", "lamp", "Mast", "Zoo", "owl", "pen",
         "o1", "o2", "o10", "O9", "7", "12", "x_y", "left arm", "fo", "fox2", "-q"]
def names(r, n):
    l = r.sample(WORDS, n)
    if n > 1 and r.random() < .25:   # names that nearly are the same
        i, j = r.sample(range(n), 2)
        x = r.choice([l[i].swapcase(), l[i].upper(), l[i] + " ", l[i] + "_", l[i][:-1], " " + l[i], l[i] + l[i]])
        if x and x not in l: l[j] = x
    return l
def outline(v, q, axis, m):
    """Python twin of the horizontal outline, for choosing interesting points."""
    c, s = q[0] ** 2 - q[3] ** 2, 2 * q[0] * q[3]
    a, b = axis[0] + m3(m)[0], axis[1] + m3(m)[1]
    return lambda t, k=1.0: [v[0] + k * (c * a * math.cos(t) - s * b * math.sin(t)), v[1] + k * (s * a * math.cos(t) + c * b * math.sin(t)), v[2]]
def surface(v, q, axis, m, extra=0.0):
    l = [axis[i] + m3(m)[i] + extra for i in range(3)]
    return lambda u, k=1.0: add(v, rot(q, [k * l[i] * u[i] for i in range(3)]))
def dumps(o): return json.dumps(o, separators=(",", ":"))
