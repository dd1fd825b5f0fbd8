------------------------------ MODULE TraceDOA -----------------------------
(* Binding of DOA to the implementation: replays a recorded execution and   *)
(* checks every event against the specification.  An event is               *)
(*   op, a : the operation and its arguments                                *)
(*   r, x  : what it returned, and the exception it raised ("" for none)    *)
(*   c     : <<handle, attributes>> of every object whose observable        *)
(*           attributes are not what they were before the operation         *)
(* Every clause carries the properties it decides.  After each event the    *)
(* observed attributes are adopted, so one deviation is reported once.      *)
EXTENDS DOA, Plots, Numbers, Json, IOUtils
CONSTANT Focus, File
VARIABLES S, i, bad
vars == <<S, i, bad>>
Trace == ndJsonDeserialize(File)
Events == Len(Trace)
Empty(names) == [st |-> <<>>, reg |-> <<>>, own |-> <<>>, grp |-> <<>>, hull |-> <<>>, regs |-> <<>>, names |-> names, x |-> ""]
-----------------------------------------------------------------------------
Active(P) == Focus = "ALL" \/ Focus \in P
\* the failing clauses: a set of <<properties, what fails>>
Chk(P, label, ok) == IF ~Active(P) THEN {} ELSE IF Mark(i + 1) /\ ok THEN {} ELSE {<<P, label>>}
-----------------------------------------------------------------------------
(* comparison of attribute records                                          *)
VecFields == {"pos", "lin", "ang", "ref", "marg", "axis", "curv"}
RECURSIVE Differs(_, _)
FieldOK(f, e, g) ==
    CASE f \in VecFields -> VNear(e, g, Tol)
      [] f = "ori" -> QNear(e, g, Tol)
      [] f = "sm" -> Near(e, g, Tol)
      [] f = "mem" -> {e[j] : j \in DOMAIN e} = {g[j] : j \in DOMAIN g}
      [] f = "env" -> Differs(e, g) = {}
      [] OTHER -> e = g
\* fields of the expected record e that the observed record g does not meet
Differs(e, g) == {f \in DOMAIN e \ {"outer", "inner", "idx", "same", "map", "list", "agg"} : ~(f \in DOMAIN g /\ FieldOK(f, e[f], g[f]))}
\* redundant getters agree with each other
Coherent(g) == /\ (Has(g, "same") => g.same)
               /\ (Has(g, "idx") => g.idx = g.axis \o g.curv)
               /\ (Has(g, "env") => g.env.same /\ g.env.idx = g.env.axis \o g.env.curv)
UnitOri(g) == Near(QLen(g.ori), One, Tol)
-----------------------------------------------------------------------------
(* observed changes                                                         *)
Changed(ev) == {ev.c[j][1] : j \in DOMAIN ev.c}
NewOf(ev, h) == ev.c[CHOOSE j \in DOMAIN ev.c : ev.c[j][1] = h][2]
After(ev) == [h \in DOMAIN S.st \cup Changed(ev) |-> IF h \in Changed(ev) THEN NewOf(ev, h) ELSE S.st[h]]
Dropped(ev) == IF ev.op = "agent.drop" THEN {ev.a.h} ELSE {}
Adopt(ev) == LET n == After(ev) IN [h \in DOMAIN n \ Dropped(ev) |-> n[h]]
Prefix(s, n) == SubSeq(s, 1, n)
-----------------------------------------------------------------------------
(* which property a wrong attribute decides, by operation, object and field *)
ParamOps == {"o.set_name", "o.set_pose", "o.set_position", "o.set_position3", "o.set_orientation", "o.set_lin",
             "o.set_ang", "o.set_ref", "o.set_axis", "o.set_curv", "obs.new", "ell.new", "state.new",
             "state.set_pose", "state.set_position", "state.set_position3", "state.set_orientation",
             "state.set_lin", "state.set_ang"}
PoseOps == {"pose.new", "pose.set_position", "pose.set_position3", "pose.set_orientation", "pose.mulassign", "pose.mul", "pose.inv", "pose.apply"}
AgentValueOps == {"agent.new", "agent.assign", "agent.transform", "agent.transformed", "agent.drop"}
AgentSetOps == {"agent.set_margin", "agent.set_pose", "agent.set_position", "agent.set_orientation", "agent.set_lin", "agent.set_ang"}
PlotOps == {"draw", "plot.obstacles", "plot.agent", "plot.traj", "plot.config", "plot.guard"}
Props(ev, r, f) ==
    LET op == ev.op
    IN  CASE op \in PoseOps -> {"C09"}
          [] op = "o.set_ref" /\ (r.k = "obs") /\ IsAggregate(S.st[ev.a.h]) -> {"C04"}
          [] op \in ParamOps -> {"C06"}
          [] op \in {"agg.new", "agg.add"} -> {"C04"}
          [] op \in {"hull.new", "hull.compute"} -> {"C15"}
          [] op = "o.shift" -> {"C25"}
          [] op \in AgentValueOps -> IF f = "env" THEN {"C07", "C08"} ELSE {"C08"}
          [] op \in AgentSetOps -> IF f = "env" THEN {"C07"} ELSE {"C06", "C08"}
          [] OTHER -> {"C06"}
\* which property an attribute decides that changed although the operation must not change it
FrameProps(ev, h, n) ==
    LET op == ev.op
    IN  CASE n.k = "agent" -> IF op \in AgentValueOps \cup AgentSetOps THEN {"C08"} ELSE IF op = "mod.vel" THEN {"C24"} ELSE {"C06", "C08"}
          [] n.k = "pose" -> {"C09", "C06"}
          [] op \in {"mod.vel", "mod.matrix", "mod.basis", "mod.relvel"} -> {"C24"}
          [] op = "o.shift" -> {"C25"}
          [] op \in {"env.update", "aggr", "env.clone_updated"} -> {"C05"}
          [] op = "env.copy" -> {"C01"}
          [] op \in {"agg.new", "agg.add", "agg.update_hull"} -> {"C04"}
          [] op = "o.set_ref" /\ IsAggregate(S.st[ev.a.h]) -> {"C04"}
          [] op \in PlotOps -> {"C06", "C28", "C29"}
          [] OTHER -> {"C06"}
-----------------------------------------------------------------------------
(* published lists                                                          *)
Tup(s) == [j \in DOMAIN s |-> s[j]]
Groups(st, list) == {Members([S EXCEPT !.st = st], list[j]) : j \in DOMAIN list}
Bearings == << R("-3.1405"), R("-2.91"), R("-2.11"), R("-1.37"), R("-0.52"), R("0.23"), R("1.02"), R("1.77"), R("2.63"), R("3.1405") >>
HullOf(st, h) == [c |-> st[h].ref, mem |-> LET q == Seqn({st[h].mem[j] : j \in DOMAIN st[h].mem}) IN [j \in DOMAIN q |-> st[q[j]]], minr |-> Half, n |-> 500]
HullAnswersOK(st, h) ==
    LET hu == HullOf(st, h)
        outs == HullOuts(hu)
        flat == \A j \in DOMAIN hu.mem : hu.mem[j].type = "Ellipsoid" /\ IsPlanar(hu.mem[j]) /\ Proper(outs[j])
        ok(seq, inside) == \A j \in DOMAIN Bearings : LET b == HullBounds(outs, hu.c[1], hu.c[2], Bearings[j], inside, hu.minr, hu.n)
                                           IN  Within(seq[j], RSub(b.lo, R("1e-6")), RAdd(b.hi, R("1e-6")))
    IN  flat => /\ (st[h].outer # <<>> => ok(st[h].outer, FALSE))
                /\ (st[h].inner # <<>> => ok(st[h].inner, TRUE))
\* an aggregate that was just built from its members
BuiltOK(st, h, base) ==
    LET S2 == [S EXCEPT !.st = st]
        e == AggregateRec(S2, Members(S2, h))
    IN  Chk({"C04"} \cup base, "aggregate name, position or reference", Differs(e, st[h]) = {})
        \cup Chk({"C04"} \cup base, "reference of the members of an aggregate",
                 \A m \in Members(S2, h) : VNear(st[m].ref, e.ref, Tol))
        \cup Chk({"C05", "C15", "C16"}, "hull surfaces of an aggregate", HullAnswersOK(st, h))
\* lists produced by an update of the obstacles in set (aggregated or not)
PublishedOK(st, list, set, agg) ==
    LET S2 == [S EXCEPT !.st = st]
        gs == Groups(st, list)
        singles == {list[j] : j \in {x \in DOMAIN list : ~IsAggregate(st[list[x]])}}
        aggs == {list[j] : j \in DOMAIN list} \ singles
        once == /\ UNION gs = set
                /\ Cardinality({list[j] : j \in DOMAIN list}) = Len(list)
                /\ \A g1, g2 \in gs : g1 = g2 \/ g1 \cap g2 = {}
                /\ Cardinality(gs) = Len(list)
                /\ \A g \in aggs : Len(st[g].mem) = Cardinality(Members(S2, g))
    IN  Chk({"C03", "C05"}, "every obstacle published exactly once", once)
        \cup Chk({"C03"}, "aggregates have at least two members", \A g \in aggs : Len(st[g].mem) >= 2)
        \cup Chk({"C03", "C05"}, "grouping by chains of overlap", once => GroupingOK(S, set, gs))
        \cup UNION { BuiltOK(st, g, IF Focus = "C05" THEN {"C05"} ELSE {}) : g \in aggs }
\* changes to registered obstacles an update may make: the reference of members
UpdateFrame(ev, st, list, known) ==
    LET S2 == [S EXCEPT !.st = st]
        aggs == {list[j] : j \in {x \in DOMAIN list : IsAggregate(st[list[x]])}}
        mem == UNION {Members(S2, g) : g \in aggs}
    IN  UNION { LET n == NewOf(ev, h)  o == S.st[h]
                IN  CASE n.k = "env" -> {}
                      [] h \in mem -> Chk({"C05"}, "an update changes only the reference of members",
                                          Differs(o, [n EXCEPT !.ref = o.ref]) = {})
                      [] OTHER -> Chk({"C05"}, "an update changes no obstacle outside aggregates", FALSE)
              : h \in {x \in Changed(ev) : x \in DOMAIN S.st} }
\* obstacles published alone behave as if never part of an aggregate
Standalone(st, list) == {list[j] : j \in {x \in DOMAIN list : ~IsAggregate(st[list[x]]) /\ list[x] \in DOMAIN S.own}}
LeftOver(st, h) == h \in DOMAIN S.grp /\ VNear(st[h].ref, S.grp[h], Tol)
StandaloneOK(st, list) ==
    Chk({"C05"}, "an obstacle published alone has a reference position nobody gave it",
        \A h \in Standalone(st, list) : VNear(st[h].ref, S.own[h], Tol) \/ LeftOver(st, h))
    \cup IF Active({"C05"}) /\ \E h \in Standalone(st, list) : ~VNear(st[h].ref, S.own[h], Tol) /\ LeftOver(st, h)
         THEN {<<{"KNOWN"}, "C05 an obstacle that left an aggregate keeps the reference position of the aggregate">>} ELSE {}
-----------------------------------------------------------------------------
(* environments: list, lookup and mode after every event                    *)
Envs(ev) == {h \in DOMAIN After(ev) : After(ev)[h].k = "env"}
Names == S.names
EnvOK(ev, reg) ==
    LET st == After(ev)
        S2 == [S EXCEPT !.st = st, !.reg = reg]
        mine(e) == \/ ev.op \in {"env.new", "env.update", "env.copy"} /\ ev.a.h = e
                   \/ ev.op = "env.clone_updated" /\ ev.a.h = e
        wantAgg(e) == CASE ev.op = "env.new" /\ ev.a.h = e -> IF Has(ev.a, "agg") THEN ev.a.agg ELSE TRUE
                        [] ev.op = "env.set_agg" /\ ev.a.h = e -> ev.a.v
                        [] ev.op \in {"env.copy", "env.clone_updated"} /\ ev.a.h = e -> S.st[ev.a.src].agg
                        [] OTHER -> S.st[e].agg
    IN  UNION { Chk({"C01", "C02"}, "aggregated flag", st[e].agg = wantAgg(e))
                \cup Chk({"C02"}, "list changed without an update", mine(e) \/ Tup(st[e].list) = Tup(S.st[e].list))
                \cup Chk({"C02"}, "new environments publish nothing", (ev.op = "env.new" /\ ev.a.h = e) => st[e].list = <<>>)
                \cup Chk({"C01", "C02"}, "a copied environment publishes the same list",
                         (ev.op = "env.copy" /\ ev.a.h = e) => Tup(st[e].list) = Tup(S.st[ev.a.src].list))
                \cup Chk(IF \E j \in DOMAIN st[e].map : Names[j] \notin DOMAIN reg[e] THEN {"C01", "C04"} ELSE {"C01"},
                         "lookup by name",
                         \A j \in DOMAIN st[e].map : st[e].map[j] = Lookup(S2, e, st[e], Names[j]))
              : e \in Envs(ev) }
-----------------------------------------------------------------------------
(* attributes after an operation                                            *)
AttrOK(ev) ==
    LET st == After(ev)
        post == Post(S, ev)
        upd == ev.op \in {"env.update", "aggr", "env.clone_updated"}
        wrong(h) == Differs(post[h], st[h])
        stray == {h \in Changed(ev) : h \in DOMAIN S.st /\ h \notin DOMAIN post /\ st[h].k # "env"}
        hullOnly(h) == IsAggregate(st[h]) /\ Differs(S.st[h], st[h]) = {}
    IN  UNION { UNION { Chk(Props(ev, st[h], f), SCat("attribute after the operation: ", SCat(h, SCat(".", f))), FALSE) : f \in wrong(h) }
              : h \in DOMAIN post }
        \cup UNION { Chk(Props(ev, st[h], "") \cup (IF st[h].k = "agent" THEN {"C07", "C08"} ELSE {}), "getters agree", Coherent(st[h]))
                   : h \in {x \in Changed(ev) : st[x].k # "env"} }
        \cup UNION { Chk(IF st[h].k = "pose" THEN {"C09"} ELSE {"C06"}, "orientation has unit length", UnitOri(st[h])) : h \in {x \in Changed(ev) : Has(st[x], "ori")} }
        \cup IF upd \/ ev.op = "mod.vel" \/ (ev.op = "o.shift" /\ post = <<>>) THEN {}
             ELSE UNION { Chk(FrameProps(ev, h, st[h]), SCat("object changed that the operation does not name: ", h),
                              hullOnly(h) /\ ev.op \in ParamOps \cup {"agg.add", "agg.update_hull", "agg.new"}) : h \in stray }
-----------------------------------------------------------------------------
(* answers to questions about obstacles                                     *)
Ag(ev) == S.st[ev.a.a]
Ob(ev) == S.st[ev.a.h]
ListOf(st, l) == IF l \in DOMAIN st THEN st[l].list ELSE <<>>
Handles(ev, l) == IF Has(ev.a, "env") THEN S.st[ev.a.env].list ELSE l
InBounds(x, d) == RFinite(x) /\ RLe(RSub(d.lo, RMul(Tol, RAdd(One, RAbs(d.lo)))), x) /\ RLe(x, RAdd(d.hi, RMul(Tol, RAdd(One, RAbs(d.hi)))))
GammaOK(x, d) == IF ~RFinite(d.hi) THEN TRUE ELSE InBounds(x, d)
DistOK(h, v, extra, x) ==
    LET d == Dist(S, h, v, extra)
    IN  IF S.st[h].type = "Ellipsoid" THEN Chk({"C10"}, "distance value of an ellipsoid", GammaOK(x, d))
        ELSE IF S.st[h].type \in {"Aggregate", "StarShapeHull"} /\ Has(S.hull, h) /\ RGt(Polar(S.hull[h].c, v).r, R("1e-9"))
        THEN Chk({"C16"} \cup (IF S.st[h].type = "StarShapeHull" THEN {"C15"} ELSE {"C05"}), "distance value of an aggregate or hull", GammaOK(x, d))
        ELSE {}
NormalOK(h, a, n) ==
    LET r == S.st[h]
    IN  CASE r.type = "Ellipsoid" ->
                LET g == Gradient(r, a.pos, Three(a.sm))
                IN  IF LengthsUnclear(r, Three(a.sm)) \/ ~RGt(Norm(g), R("1e-100")) THEN {}
                    ELSE LET sl == GradientSlack(r, a.pos, Three(a.sm))
                         IN  IF RGt(sl, R("0.1")) THEN {}
                             ELSE Chk({"C11"}, "normal of an ellipsoid", VNear(n, Unit(g), RAdd(R("1e-8"), sl)))
          [] r.type \in {"Aggregate", "StarShapeHull"} /\ Has(S.hull, h) ->
                LET hu == S.hull[h]
                    pol == Polar(hu.c, a.pos)
                    ins == IF r.type = "Aggregate" THEN Inside3(S, h, a.pos) ELSE IF hu.inside THEN "yes" ELSE "no"
                    w == HullWide(HullOuts(hu), hu.c[1], hu.c[2], pol.t, ins = "yes", hu.minr, hu.n)
                    t == HullTangentDots(HullOuts(hu), hu.c[1], hu.c[2], pol.t, ins = "yes", hu.minr, hu.n, n)
                IN  IF ~RGt(pol.r, R("1e-9")) THEN {}
                    ELSE Chk({"C16"}, "normal of an aggregate is a horizontal unit vector",
                             Near(Norm(n), One, R("1e-7")) /\ RLe(RAbs(n[3]), R("1e-7")))
                         \cup IF ins = "maybe" \/ RGt(w.hi, RMul(R("1.15"), w.lo)) THEN {}
                              ELSE Chk({"C16"}, "normal of an aggregate is perpendicular to its surface",
                                       RLe(t.lo, R("0.02")) /\ RGe(t.hi, R("-0.02")))
          [] OTHER -> {}
SampleOK(ev) ==
    LET e == Outline(Ob(ev), ev.a.sm)
        n == Len(ev.r)
        p(j) == ev.r[j]
        ecc(j) == RAtan2(RDiv(LocY(e, p(j)[1], p(j)[2]), e.b), RDiv(LocX(e, p(j)[1], p(j)[2]), e.a))
        step(j) == LET d == RSub(ecc(j + 1), ecc(j))
                   IN  IF RGt(d, Pi) THEN RSub(d, RMul(Two, Pi)) ELSE IF RLt(d, RNeg(Pi)) THEN RAdd(d, RMul(Two, Pi)) ELSE d
        steps == [j \in 1..(n - 1) |-> step(j)]
        turn == RAbs(RSum(steps))
    IN  IF ~IsPlanar(Ob(ev)) \/ ~Proper(e) THEN {}
        ELSE Chk({"C12"}, "number of boundary samples", n = ev.a.n)
        \cup Chk({"C12"}, "boundary samples lie on the outline", \A j \in 1..n : Near(Level(e, p(j)[1], p(j)[2]), One, R("1e-7")))
        \cup Chk({"C12"}, "boundary samples start and end at the same point",
                 n < 2 \/ RLe(Hyp(RSub(p(1)[1], p(n)[1]), RSub(p(1)[2], p(n)[2])), RMul(R("1e-7"), RAdd(RAdd(One, RAdd(RAbs(e.cx), RAbs(e.cy))), RMax(e.a, e.b)))))
        \cup Chk({"C12"}, "boundary samples go around once",
                 n < 5 \/ /\ Near(turn, RMul(Two, Pi), R("1e-5"))
                          /\ \A j \in 1..(n - 1) : RLt(RMul(steps[j], steps[1]), Zero) = FALSE
                          /\ \A j \in 1..(n - 1) : RLt(RAbs(steps[j]), Half) \/ n < 14)
ChordOK(ev) ==
    LET e == Outline(Ob(ev), TRUE)
        v == ev.a.v  w == ev.a.w
        k == LineCoef(e, v[1], v[2], w[1], w[2])
        l == LineParams(k)
        pt(t) == <<RAdd(v[1], RMul(t, RSub(w[1], v[1]))), RAdd(v[2], RMul(t, RSub(w[2], v[2]))), Ob(ev).pos[3]>>
        hit == ev.r[1]
        good(p, q) == VNear(p, pt(l.t1), R("1e-6")) /\ VNear(q, pt(l.t2), R("1e-6"))
    IN  IF Ob(ev).type # "Ellipsoid" THEN {}
        ELSE IF ~IsPlanar(Ob(ev)) \/ ~Proper(e) \/ RLt(k.A, R("1e-18"))
             \* points too close together to give a direction
             \/ RLt(RAdd(RAbs(RSub(v[1], w[1])), RAbs(RSub(v[2], w[2]))), RMul(R("1e-6"), RAdd(One, RAdd(RAbs(v[1]), RAbs(v[2]))))) THEN {}
        ELSE Chk({"C12"}, "whether a line cuts the outline", Consistent(LineMeets(k), hit))
             \cup Chk({"C12"}, "points where a line cuts the outline",
                      (LineMeets(k) = "yes" /\ hit) => good(ev.r[2], ev.r[3]) \/ good(ev.r[3], ev.r[2]))
RepVector(h, a, d, ins) == \* repulsion vector of obstacle h with distance value d
    LET r == S.st[h]
        f == IF r.type = "Aggregate" THEN R("20") ELSE Two
        v == VScale(RDiv(f, d), VSub(a.pos, r.ref))
    IN  IF r.type = "Aggregate" /\ ins THEN VNeg(v) ELSE v
PathOK(ev) ==
    LET l == Handles(ev, ev.a.l)
        o(j) == l[j]
        ag == S.st[ev.a.h]
        sides(j) == <<Inside3(S, o(j), ev.a.v), Inside3(S, o(j), ag.pos)>>
        differ(j) == LET s == sides(j) IN IF "maybe" \in {s[1], s[2]} THEN "maybe" ELSE IF s[1] # s[2] THEN "yes" ELSE "no"
        blocks(j) == LET d == differ(j)
                     IN  IF d = "no" THEN "no"
                         ELSE LET c == Closed3(S, o(j))
                              IN  IF c = "no" THEN "no" ELSE IF c = "yes" /\ d = "yes" THEN "yes" ELSE "maybe"
        v == Or3({blocks(j) : j \in DOMAIN l})
    IN  Chk({"C14"}, "whether a path exists", IF v = "yes" THEN ~ev.r ELSE IF v = "no" THEN ev.r ELSE TRUE)
InterListOK(rec, l, answer, P, label) ==
    Chk(P, label, Consistent(Or3({OverlapRec(S, rec, l[j]) : j \in DOMAIN l}), answer))
-----------------------------------------------------------------------------
(* the modulation                                                           *)
Opt(a, f, d) == IF Has(a, f) THEN a[f] ELSE d
World(r, n) == QRot(r.ori, n)
ModOK(ev) ==
    LET a == ev.a
        st == After(ev)
        ag == S.st[a.a]
        list == S.st[a.e].list
        n == Len(list)
        loc == Opt(a, "local", FALSE)  rep == Opt(a, "rep", FALSE)  planar == Opt(a, "planar", FALSE)
        crit == Opt(a, "crit", One)  pow == Opt(a, "pow", Two)
        v == ev.r[1]
        aux == ev.r[2]
        obs == [j \in 1..n |-> st[list[j]]]             \* reference positions as shifted
        dist == [j \in 1..n |-> aux[j][1]]
        nrm == [j \in 1..n |-> World(obs[j], aux[j][2])]
        sight == IF ~loc THEN "yes" ELSE Or3({OverlapRec(S, ag.env, list[j]) : j \in 1..n})
        law == Law(ag.pos, ag.lin, obs, dist, nrm, crit, pow)
        repUnclear == \E j \in 1..n : RLe(RAbs(RSub(dist[j], R("1.1"))), R("1e-9"))
        reps == [j \in 1..n |-> IF RLt(dist[j], R("1.1")) THEN RepVector(list[j], ag, dist[j], aux[j][3]) ELSE V0]
        repSum0 == VSum(reps)
        \* the reference used by the repulsion is the shifted one
        repSum == VSum([j \in 1..n |-> IF RLt(dist[j], R("1.1"))
                         THEN LET f == IF obs[j].type = "Aggregate" THEN R("20") ELSE Two
                                  w == VScale(RDiv(f, dist[j]), VSub(ag.pos, obs[j].ref))
                              IN  IF obs[j].type = "Aggregate" /\ aux[j][3] THEN VNeg(w) ELSE w
                         ELSE V0])
        repOn == rep /\ RGt(Norm(repSum), R("1e-4"))
        repEdge == rep /\ (repUnclear \/ RLe(RAbs(RSub(Norm(repSum), R("1e-4"))), R("1e-9")) \/ ~VFinite(repSum))
        full == IF repOn THEN VAdd(law.v, repSum) ELSE law.v
        close == VNear(v, full, TolQ)
        same == VNear(v, ag.lin, R("1e-12"))
        shiftOK(unchanged) == \A j \in 1..n :
             LET o == S.st[list[j]]  s == Shift(o, ag)
             IN  IF unchanged \/ s.s = "no" THEN VNear(obs[j].ref, o.ref, Tol)
                 ELSE s.s = "yes" => VNear(obs[j].ref, s.ref, TolQ)
        \* exactly one obstacle at or inside whose surface the agent is
        at == {j \in 1..n : RLe(dist[j], R("1.0000000001"))}
        one == CHOOSE j \in at : TRUE
        rel == VSub(v, PointVelocity(obs[one], ag.pos))
        scale == RAdd(RAdd(Norm(ag.lin), Norm(PointVelocity(obs[one], ag.pos))), R("1e-12"))
        \* the law is singular where the reference direction is tangent to the surface
        sound == /\ RFinite(dist[one]) /\ RGt(dist[one], R("1e-9"))
                 /\ RGe(RAbs(Dot(nrm[one], Unit(VSub(ag.pos, obs[one].ref)))), R("1e-3"))
                 /\ RGe(Norm(VSub(ag.pos, obs[one].ref)), R("1e-6"))
    IN  Chk({"C24", "C21"}, "modulated velocity is a number", ~RIsNaN(v[1]) /\ ~RIsNaN(v[2]) /\ ~RIsNaN(v[3]))
        \cup Chk({"C21"}, "commanded velocity kept when nothing is published", n = 0 => VEq(v, ag.lin))
        \cup IF n = 0 THEN {}
        ELSE Chk({"C21"}, "commanded velocity kept when nothing is in sight", sight = "no" => same)
        \cup (IF ~loc THEN {} ELSE Chk({"C21"}, "local modulation in sight equals the non-local one",
                 (sight = "yes" /\ law.ok /\ ~repEdge) => close))
        \cup Chk({"C20"}, "multi-obstacle composition law",
                 (~loc /\ ~rep /\ ~planar /\ law.ok) => close)
        \cup Chk({"C23"}, "modulation with repulsion",
                 (rep /\ sight = "yes" /\ law.ok /\ ~repEdge) => close)
        \cup Chk({"C25"}, "modulation in planar mode uses the shifted reference points",
                 (planar /\ sight = "yes" /\ law.ok /\ ~repEdge) => close)
        \cup Chk({"C25", "C24"}, "reference points after modulation",
                 IF ~planar \/ sight = "no" THEN shiftOK(TRUE)
                 ELSE IF sight = "yes" THEN shiftOK(FALSE) ELSE shiftOK(TRUE) \/ shiftOK(FALSE))
        \cup Chk({"C24"}, "modulation changes nothing but reference points, and those in planar mode only",
                 \A h \in Changed(ev) : /\ planar
                                        /\ h \in {list[j] : j \in 1..n}
                                        /\ st[h].k = "obs" /\ Differs(S.st[h], [st[h] EXCEPT !.ref = S.st[h].ref]) = {})
        \cup (IF rep \/ loc \/ Has(a, "crit") \/ Cardinality(at) # 1 THEN {}
              ELSE IF obs[one].type # "Ellipsoid" \/ ~sound THEN {}
              ELSE Chk({"C19"}, "no velocity into the obstacle at its surface",
                       RLe(RAbs(Dot(nrm[one], rel)), RMul(TolQ, scale))))
BasisOK(ref, ortho, o, ag, nLocal, P) ==
    LET r == Unit(QRot(QConj(o.ori), VSub(ag.pos, o.ref)))
        orth == /\ \A j \in 1..3 : Near(Norm(ortho[j]), One, R("1e-8"))
                /\ RLe(RAbs(Dot(ortho[1], ortho[2])), R("1e-8"))
                /\ RLe(RAbs(Dot(ortho[1], ortho[3])), R("1e-8"))
                /\ RLe(RAbs(Dot(ortho[2], ortho[3])), R("1e-8"))
    IN  IF ~Near(Norm(nLocal), One, R("1e-6")) THEN {}
        ELSE Chk(P, "tangent basis is orthonormal and starts with the normal",
                 orth /\ VNear(ortho[1], nLocal, R("1e-8")))
             \cup Chk(P, "reference basis: reference direction and surface tangents",
                 ref = <<>> \/ /\ VNear(ref[1], r, R("1e-8"))
                               /\ \A j \in 2..3 : Near(Norm(ref[j]), One, R("1e-8")) /\ RLe(RAbs(Dot(ref[j], nLocal)), R("1e-8"))
                               /\ RLe(RAbs(Dot(ref[2], ref[3])), R("1e-8")))
Cols(m, v) == VAdd(VAdd(VScale(v[1], m[1]), VScale(v[2], m[2])), VScale(v[3], m[3]))
MatrixOK(ev) ==
    LET o == S.st[ev.a.o]
        ag == Ag(ev)
        m == ev.r[1]  d == ev.r[3]  n == ev.r[4]
        g == Gradient(o, ag.pos, Three(ag.sm))
        nw == IF o.type = "Ellipsoid" THEN World(o, Unit(g)) ELSE World(o, n)
        rd == VSub(ag.pos, o.ref)
        fine == /\ RGe(Norm(rd), R("1e-6")) /\ RGe(RAbs(Dot(nw, Unit(rd))), R("1e-3"))
                /\ Near(Norm(nw), One, TolQ)
                /\ (o.type = "Ellipsoid" => RLe(GradientSlack(o, ag.pos, Three(ag.sm)), R("1e-8")))
        want(v) == Modulate(v, nw, rd, d)
    IN  DistOK(ev.a.o, ag.pos, Three(ag.sm), d)
        \cup (IF o.type = "Ellipsoid" /\ ~LengthsUnclear(o, Three(ag.sm)) /\ RGt(Norm(g), R("1e-100"))
              THEN Chk({"C18"}, "distance handed back with the matrix", GammaOK(d, Dist(S, ev.a.o, ag.pos, Three(ag.sm)))) ELSE {})
        \cup BasisOK(<<>>, ev.r[2], o, ag, n, {"C18"})
        \cup IF ~fine \/ ~RFinite(d) THEN {}
             ELSE Chk({"C18"}, "modulation matrix scales reference and tangent directions",
                      /\ VNear(Cols(m, EX), want(EX), TolQ)
                      /\ VNear(Cols(m, EY), want(EY), TolQ)
                      /\ VNear(Cols(m, EZ), want(EZ), TolQ)
                      /\ VNear(Cols(m, Unit(rd)), VScale(RSub(One, Delta(d, One)), Unit(rd)), TolQ))
-----------------------------------------------------------------------------
(* relations between answers obtained earlier (registers)                   *)
Reg(n) == S.regs[n]
RotOf(a, v) == QRot(QUnit(a.q), v)
TagSet(a) == {a.props[j] : j \in DOMAIN a.props}
RelateOK(ev) ==
    LET a == ev.a
    IN  CASE a.kind = "same" ->    \* two velocities are equal
               Chk(TagSet(a), a.label, VNear(Reg(a.x), Reg(a.y), a.tol))
          [] a.kind = "rot" ->     \* second is the first turned by q
               Chk(TagSet(a), a.label, VNear(Reg(a.y), RotOf(a, Reg(a.x)), a.tol))
          [] a.kind = "rotdir" ->  \* the same, direction and magnitude loosely
               \* where the surfaces are sampled: as far as distances and normals follow the motion
               LET p == Reg(SCat(a.x, "!"))  q == Reg(SCat(a.y, "!"))
                   close(j) == /\ Near(p[j][1], q[j][1], R("0.02"))
                               /\ Near(Norm(p[j][2]), One, R("1e-3"))
                               /\ RLe(Norm(VSub(q[j][2], IF RLe(Norm(VSub(p[j][2], q[j][2])), R("1e-6")) THEN q[j][2] ELSE RotOf(a, p[j][2]))), R("0.02"))
                   plain == \A e \in {a.e1, a.e2} : \A j \in DOMAIN S.st[e].list : ~IsAggregate(S.st[S.st[e].list[j]])
               IN  IF plain THEN Chk(TagSet(a), a.label, VNear(Reg(a.y), RotOf(a, Reg(a.x)), R("1e-5")))
                   ELSE IF Len(p) = Len(q) /\ (\A j \in DOMAIN p : close(j)) /\ RGe(Norm(Reg(a.x)), R("1e-3"))
                   THEN Chk(TagSet(a), a.label, RLe(Norm(VSub(Reg(a.y), RotOf(a, Reg(a.x)))), RMul(a.tol, RMax(Norm(Reg(a.x)), Norm(Reg(a.y))))))
                   ELSE {}
          [] a.kind = "scaled" ->
               Chk(TagSet(a), a.label, VNear(Reg(a.y), VScale(a.s, Reg(a.x)), a.tol))
          [] a.kind = "samex" ->   \* two single answers are equal
               Chk(TagSet(a), a.label, Near(Reg(a.x), Reg(a.y), a.tol))
          [] a.kind = "sameb" -> IF ~(a.x \in DOMAIN S.regs /\ a.y \in DOMAIN S.regs) THEN {} ELSE Chk(TagSet(a), a.label, Reg(a.x) = Reg(a.y))
          [] a.kind = "permw" ->   \* second array of weights is the first permuted by perm
               Chk(TagSet(a), a.label, \A j \in DOMAIN a.perm : Near(Reg(a.y)[j], Reg(a.x)[a.perm[j]], a.tol))
          [] a.kind = "le" -> Chk(TagSet(a), a.label, RLe(Reg(a.x), RAdd(Reg(a.y), RMul(a.tol, RAdd(One, RAbs(Reg(a.y)))))))
          [] a.kind = "outside" -> \* closed loop: the agent is outside every obstacle of the list
               Chk({"C26"}, "controlled agent is outside every obstacle",
                   \A j \in DOMAIN a.l : LET g == Gamma(S.st[a.l[j]], S.st[a.a].pos, Three(S.st[a.a].sm)) IN RGe(g, RSub(One, a.tol)))
          [] a.kind = "near" ->
               Chk({"C26"}, "controlled agent reaches its goal", RLe(Norm(VSub(S.st[a.a].pos, a.v)), a.tol))
          [] a.kind = "samelists" -> \* two environments publish equal lists (values, not identities)
               LET x == S.st[a.x].list  y == S.st[a.y].list
                   eq(r, q) == /\ r.type = q.type /\ r.name = q.name
                               /\ VNear(r.pos, q.pos, Tol) /\ VNear(r.ref, q.ref, Tol)
                               /\ (IsAggregate(r) =>
                                     /\ {S.st[r.mem[j]].name : j \in DOMAIN r.mem} = {S.st[q.mem[j]].name : j \in DOMAIN q.mem}
                                     /\ \A j \in DOMAIN r.outer : Near(r.outer[j], q.outer[j], R("1e-7")) /\ Near(r.inner[j], q.inner[j], R("1e-7")))
               IN  Chk(TagSet(a), a.label, Len(x) = Len(y) /\ \A j \in DOMAIN x : \E m \in DOMAIN y : eq(S.st[x[j]], S.st[y[m]]))
          [] OTHER -> {}
-----------------------------------------------------------------------------
(* printed descriptions                                                     *)
Numbers(ev, label, j) == LET s == {m \in DOMAIN ev.r : ev.r[m].l = label} IN ev.r[CHOOSE m \in s : TRUE].n
LineIs(ev, label, vals) ==
    \E m \in DOMAIN ev.r : /\ ev.r[m].l = label
                           /\ Len(ev.r[m].n) >= Len(vals)
                           /\ \A j \in DOMAIN vals : RLe(RAbs(RSub(ev.r[m].n[j], vals[j])), RAdd(R("1e-30"), RMul(R("1e-5"), RAbs(vals[j]))))
HeadIs(ev, text) == \E m \in DOMAIN ev.r : ev.r[m].s = text
BodyPrinted(ev, r) ==
    /\ LineIs(ev, "position", r.pos) /\ LineIs(ev, "orientation", r.ori)
    /\ LineIs(ev, "linear velocity", r.lin) /\ LineIs(ev, "angular velocity", r.ang)
ObsPrinted(ev, r) ==
    /\ HeadIs(ev, SCat(r.type, SCat(" ", r.name)))
    /\ BodyPrinted(ev, r)
    /\ LineIs(ev, "reference position", r.ref) /\ LineIs(ev, "safety margin", r.marg)
    /\ (r.type = "Ellipsoid" => LineIs(ev, "axis lengths", r.axis) /\ LineIs(ev, "curvature factor", r.curv))
PrintOK(ev) ==
    LET r == S.st[ev.a.h]
    IN  CASE r.k = "agent" -> Chk({"C30"}, "printed agent", BodyPrinted(ev, r) /\ LineIs(ev, "safety margin", <<r.sm>>))
          [] r.k = "obs" -> Chk({"C30"}, "printed obstacle", ObsPrinted(ev, r))
                \cup IF ~IsAggregate(r) THEN {} ELSE Chk({"C30"}, "printed aggregate lists its members",
                         \A m \in Members(S, ev.a.h) : ObsPrinted(ev, S.st[m]))
          [] OTHER -> Chk({"C30"}, "printed pose", LineIs(ev, "position", r.pos) /\ LineIs(ev, "orientation", r.ori)
                          /\ (r.k = "state" => BodyPrinted(ev, r)))
-----------------------------------------------------------------------------
(* expectations computed by the design models                               *)
ExpectOK(ev) ==
    LET a == ev.a
    IN  CASE a.kind = "published" -> \* the published list, as groups of names
               LET l == S.st[a.e].list
                   got == {{S.st[m].name : m \in Members(S, l[j])} : j \in DOMAIN l}
               IN  Chk(TagSet(a), "list published according to the model",
                       Len(l) = Len(a.groups) /\ got = {{a.groups[j][m] : m \in DOMAIN a.groups[j]} : j \in DOMAIN a.groups})
          [] a.kind = "groups" -> \* the same, by handles
               LET l == IF Has(a, "reg") THEN S.regs[a.reg] ELSE S.st[a.e].list
                   got == {Members(S, l[j]) : j \in DOMAIN l}
               IN  Chk(TagSet(a), "list published according to the model",
                       Len(l) = Len(a.groups) /\ got = {{a.groups[j][m] : m \in DOMAIN a.groups[j]} : j \in DOMAIN a.groups})
          [] a.kind = "pose" -> \* position and the images of two axes
               LET r == S.st[a.h]
               IN  Chk(TagSet(a), "pose according to the model",
                       VNear(r.pos, a.pos, Tol) /\ VNear(QRot(r.ori, EX), a.ex, Tol) /\ VNear(QRot(r.ori, EY), a.ey, Tol))
          [] a.kind = "attr" -> UNION { Chk(TagSet(a), SCat("attribute according to the model: ", f), FALSE) : f \in Differs(a.want, S.st[a.h]) }
                                \cup Chk(TagSet(a), "attributes according to the model", TRUE)
          [] a.kind = "outcome" -> Chk(TagSet(a), "outcome according to the model", S.x = a.x)
          [] OTHER -> {}
-----------------------------------------------------------------------------
(* what an operation answered                                               *)
AnswerOK(ev) ==
    LET a == ev.a
        op == ev.op
        r == ev.r
        st == After(ev)
        margin == MarginOf(a)
    IN
    CASE op = "pose.apply" -> Chk({"C09"}, "pose applied to a point", VNear(r, PApply(AsPose(Ob(ev)), a.v), Tol))
      [] op = "q.dist" -> DistOK(a.h, a.v, margin, r)
      [] op = "q.dist_agent" -> DistOK(a.h, Ag(ev).pos, Three(Ag(ev).sm), r)
      [] op = "q.agentq" -> DistOK(a.h, Ag(ev).pos, Three(Ag(ev).sm), r[1]) \cup NormalOK(a.h, Ag(ev), r[2])
      [] op = "q.normal" -> NormalOK(a.h, Ag(ev), r)
      [] op = "q.inside" -> Chk(IF Ob(ev).type = "Ellipsoid" THEN {"C12"} ELSE IF Ob(ev).type = "Aggregate" THEN {"C16", "C05"} ELSE {"C16", "C15"},
                                "point is inside", Consistent(Inside3(S, a.h, a.v), r))
      [] op = "q.sample" -> SampleOK(ev)
      [] op = "q.chord" -> ChordOK(ev)
      [] op = "q.inter" -> Chk({"C13"}, "overlap of two obstacles", Consistent(Overlap3(S, a.h, a.o), r))
      [] op = "q.interlist" -> LET l == Handles(ev, a.l)
                               IN  Chk({"C13"}, "overlap with a list", Consistent(Or3({Overlap3(S, a.h, l[j]) : j \in DOMAIN l}), r))
      [] op = "q.repf" -> LET d == Dist(S, a.h, Ag(ev).pos, Three(Ag(ev).sm))
                              f == IF Has(a, "f") THEN a.f ELSE Two
                          IN  IF ~RFinite(d.hi) \/ ~RGt(d.lo, R("1e-9")) \/ RLt(f, Zero) THEN {}
                              ELSE Chk({"C23"}, "repulsion factor", InBounds(r, [lo |-> RDiv(f, d.hi), hi |-> RDiv(f, d.lo)]))
      [] op \in {"q.repv", "q.genrep"} ->
            LET ag == Ag(ev)
                d == Dist(S, a.h, ag.pos, Three(ag.sm))
                thr == IF Has(a, "t") THEN a.t ELSE R("1.1")
                ins == IF IsAggregate(Ob(ev)) THEN Inside3(S, a.h, ag.pos) ELSE "no"
                mid == RMul(Half, RAdd(d.lo, d.hi))
                want == RepVector(a.h, ag, mid, ins = "yes")
                slack == RAdd(TolQ, RDiv(RSub(d.hi, d.lo), d.lo))
                zero == op = "q.genrep" /\ RGe(d.lo, IF Has(a, "exact") THEN thr ELSE RAdd(thr, TolQ))
                on == op = "q.repv" \/ RLe(d.hi, RSub(thr, TolQ))
            IN  IF ~RFinite(d.hi) \/ ~RGt(d.lo, R("1e-9")) \/ ins = "maybe" THEN {}
                ELSE Chk({"C23"}, "no repulsion away from the obstacle", zero => VEq(r, V0))
                     \cup Chk({"C23"}, "repulsion vector", on => RLe(Norm(VSub(r, want)), RMul(slack, RAdd(R("1e-3"), Norm(want)))))
      [] op = "q.closed" -> Chk(IF Ob(ev).type = "Ellipsoid" THEN {"C14"} ELSE {"C15", "C14", "C05"}, "closedness", Consistent(Closed3(S, a.h), r))
      [] op = "q.area" -> LET o == Ob(ev)
                              l == IF Opt(a, "sm", TRUE) THEN VAdd(o.axis, o.marg) ELSE o.axis
                              w == Area(l)
                          IN  Chk({"C30"}, "surface area", RLe(RAbs(RSub(r, w)), RMul(R("0.02"), w)))
      [] op \in {"q.print", "agent.print", "pose.print", "state.print"} -> PrintOK(ev)
      [] op = "agent.in_obs" -> Chk({"C13"}, "agent in an obstacle", Consistent(OverlapRec(S, Disc(Ob(ev)), a.o), r))
      [] op = "agent.env_inter" -> InterListOK(Ob(ev).env, Handles(ev, a.l), r, {"C13"}, "envelope overlaps a list")
      [] op = "agent.path" -> PathOK(ev)
      [] op = "env.get" -> Chk(IF a.name \in DOMAIN S.reg[a.h] THEN {"C01"} ELSE {"C01", "C04"}, "lookup by name", r = Lookup(S, a.h, S.st[a.h], a.name))
      [] op = "env.update" ->
            LET list == st[a.h].list
                set == Registered(S, a.h)
            IN  (IF S.st[a.h].agg THEN PublishedOK(st, list, set, TRUE)
                 ELSE Chk({"C02"}, "list published without aggregation", Tup(list) = ByName(S, a.h)))
                \cup UpdateFrame(ev, st, list, {}) \cup StandaloneOK(st, list)
      [] op = "aggr" -> PublishedOK(st, r, {a.l[j] : j \in DOMAIN a.l}, TRUE) \cup UpdateFrame(ev, st, r, {})
      [] op \in {"agg.new", "agg.add", "agg.update_hull"} ->
            IF (op = "agg.new" /\ ~Has(a, "mem")) \/ (op = "agg.add" /\ Has(a, "upd") /\ ~a.upd) THEN {}
            ELSE Chk({"C05", "C15", "C16"}, "hull surfaces of an aggregate", HullAnswersOK(st, a.h))
      [] op = "mod.weights" ->
            LET n == Len(a.d)
            IN  Chk({"C17"}, "weights are non-negative and sum to one",
                    Len(r) = n /\ (\A j \in 1..n : RGe(r[j], Zero)) /\ Near(RSum(r), One, Tol))
                \cup IF \E j \in 1..n : ~REq(a.d[j], a.crit) /\ RLe(RAbs(RSub(a.d[j], a.crit)), R("1e-11")) THEN {}
                     ELSE Chk({"C17"}, "weights of the obstacles", \A j \in 1..n : Near(r[j], Weights(a.d, a.crit, a.pow)[j], Tol))
                \cup Chk({"C17"}, "nearer obstacles never weigh less",
                         \A j, m \in 1..n : RLe(a.d[j], a.d[m]) => RGe(r[j], RSub(r[m], R("1e-12"))))
      [] op = "mod.eig" -> LET del == Delta(a.d, Opt(a, "f", One))
                           IN  Chk({"C18"}, "eigenvalues", VNear(r, <<RSub(One, del), RAdd(One, del), RAdd(One, del)>>, Tol))
      [] op = "mod.basis" -> BasisOK(r[1], r[2], S.st[a.o], Ag(ev), r[3], {"C18"})
      [] op = "mod.matrix" -> MatrixOK(ev)
      [] op = "mod.relvel" ->
            LET l == Handles(ev, a.l)
                obs == [j \in DOMAIN l |-> S.st[l[j]]]
                m == ObstacleMotion(Ag(ev).pos, obs, a.d, a.w)
            IN  Chk({"C20"}, "motion of the obstacles at the agent", VNear(r[2], m, TolQ) /\ VNear(r[1], VSub(Ag(ev).lin, r[2]), Tol))
      [] op = "mod.vel" -> ModOK(ev)
      [] op = "mt.linspace" -> Chk({"C27"}, "linear spacing", SpacingOK(r, a.a, a.b, a.n))
      [] op = "mt.grid" -> Chk({"C27"}, "grid",
             Len(r) = a.n * a.n2 /\
             \A x \in 0..(a.n - 1), y \in 0..(a.n2 - 1) :
                Cardinality({j \in DOMAIN r : Near(r[j][1], Lin(a.a, a.b, a.n, x), Tol) /\ Near(r[j][2], Lin(a.a2, a.b2, a.n2, y), Tol)}) = 1)
      [] op = "mt.rand" -> LET b == Opt(a, "b", Zero)
                           IN  Chk({"C27"}, "random values lie between the bounds",
                                   \A j \in DOMAIN r : RLe(RMin(a.a, b), r[j]) /\ RLe(r[j], RMax(a.a, b)))
      [] op = "mt.c2p" -> Chk({"C27"}, "polar coordinates", PolarOK(a.v, r))
      [] op = "mt.p2c" -> Chk({"C27"}, "cartesian coordinates of a polar point",
             RLe(Norm(VSub(r, << RMul(RMul(a.v[1], RSin(a.v[2])), RCos(a.v[3])), RMul(RMul(a.v[1], RSin(a.v[2])), RSin(a.v[3])), RMul(a.v[1], RCos(a.v[2])) >>)),
                 RMul(Tol, RAdd(R("1e-300"), RAbs(a.v[1])))))
      [] op = "mt.round" -> Chk({"C27"}, "polar coordinates", PolarOK(a.v, r[1]))
                            \cup Chk({"C27"}, "polar coordinates and back", RLe(Norm(VSub(r[2], a.v)), RMul(R("1e-7"), Norm(a.v))))
      [] op = "mt.sort" -> Chk({"C27"}, "columns sorted by angle", SortedOK(a.cols, r))
      [] op = "draw" -> Chk({"C28"}, "drawing of an obstacle", DrawOK(r, S.st, S.hull, a.h, Opt(a, "color", "k"), Opt(a, "axis", "xy")))
      [] op \in {"plot.config", "plot.guard"} -> Chk({"C29"}, "figure protocol", FigureOK(ev, S.st))
      [] op = "plot.obstacles" -> Chk({"C29"}, "obstacles plotted with cycling colours", ObstaclesOK(r, S.st, Handles(ev, a.l), a.axis))
      [] op = "plot.agent" -> Chk({"C29"}, "agent plotted", AgentPlotOK(r, S.st[a.a], a.axis, Opt(a, "color", "b")))
      [] op = "plot.traj" -> Chk({"C29"}, "goal and trajectory plotted", TrajPlotOK(r, a.goal, a.hist, a.axis))
      [] op = "relate" -> RelateOK(ev)
      [] op = "expect" -> ExpectOK(ev)
      [] OTHER -> {}
-----------------------------------------------------------------------------
(* exceptions                                                               *)
OpProps(ev) ==
    LET op == ev.op
    IN  CASE op \in {"env.add", "env.remove", "env.get"} -> {"C01"}
          [] op \in {"env.update", "env.clone_updated", "aggr"} -> {"C02", "C03", "C05"}
          [] op \in {"mod.vel"} -> {"C24"}
          [] op \in {"mt.linspace", "mt.grid"} -> {"C27"}
          [] op \in AgentValueOps -> {"C08"}
          [] OTHER -> {}
RaisesOK(ev) ==
    IF ev.op = "crash" THEN {<<{Focus} , SCat("crash: ", ev.a.why)>>}
    ELSE LET want == Raises(S, ev)
         IN  IF want = ev.x THEN {}
             ELSE {<<OpProps(ev) \cup {Focus}, SCat("exception ", SCat(ev.x, SCat(" where the specification has ", want)))>>}
\* an operation that raised an exception changed nothing
FrameOnly(ev) ==
    UNION { Chk(FrameProps(ev, h, NewOf(ev, h)) \cup OpProps(ev), "a failing operation changed an object", FALSE)
          : h \in {x \in Changed(ev) : x \in DOMAIN S.st /\ NewOf(ev, x).k # "env"} }
NextReg2(s, ev) ==
    IF ev.op = "env.clone_updated"
    THEN (ev.a.h :> [n \in {s.st[ev.a.copies[j][1]].name : j \in DOMAIN ev.a.copies} |->
                       ev.a.copies[CHOOSE j \in DOMAIN ev.a.copies : s.st[ev.a.copies[j][1]].name = n][2]]) @@ s.reg
    ELSE NextReg(s, ev)
\* an object nobody else holds lives as long as an environment has it, publishes it or publishes an aggregate of it
AliveOK(ev, st, reg) ==
    IF ~Has(ev, "g") THEN {}
    ELSE LET gone == {ev.g[j] : j \in DOMAIN ev.g}
             envs == {h \in DOMAIN st : st[h].k = "env"}
             shown == UNION {{st[e].list[j] : j \in DOMAIN st[e].list} : e \in envs}
             inside == UNION {{st[h].mem[j] : j \in DOMAIN st[h].mem} : h \in {x \in shown \cap DOMAIN st : IsAggregate(st[x])}}
             kept == UNION {{reg[e][n] : n \in DOMAIN reg[e]} : e \in DOMAIN reg}
         IN  Chk({"C01"}, "a registered obstacle exists no longer", gone \cap kept = {})
             \cup Chk({"C02"}, "a published obstacle exists no longer", gone \cap (shown \cup inside) = {})
Fails(ev, reg) ==
    IF ev.op = "crash" \/ ev.x # "" THEN RaisesOK(ev) \cup (IF ev.op = "crash" THEN {} ELSE FrameOnly(ev) \cup EnvOK(ev, S.reg))
    ELSE RaisesOK(ev) \cup (IF Raises(S, ev) # "" THEN {} ELSE AttrOK(ev) \cup AnswerOK(ev) \cup EnvOK(ev, reg))
    \cup (IF ev.op = "crash" THEN {} ELSE AliveOK(ev, Adopt(ev), reg))
-----------------------------------------------------------------------------
(* the trace automaton                                                      *)
NewOwn(ev, st) ==
    LET op == ev.op  a == ev.a
        set(f) == f @@ S.own
    IN  CASE op \in {"obs.new", "ell.new", "hull.new", "hull.compute"} -> set(a.h :> st[a.h].ref)
          [] op = "o.set_ref" -> set([m \in Members(S, a.h) |-> a.v])
          [] op = "agg.new" /\ Has(a, "mem") -> set([m \in {a.mem[j] : j \in DOMAIN a.mem} |-> st[m].ref])
          [] op = "agg.add" -> set([m \in {st[a.h].mem[j] : j \in DOMAIN st[a.h].mem} |-> st[m].ref])
          [] op = "o.shift" -> IF a.h \in DOMAIN S.own THEN set(a.h :> st[a.h].ref) ELSE S.own
          [] op = "mod.vel" -> set([m \in Changed(ev) \cap DOMAIN S.own |-> st[m].ref])
          [] op = "env.clone_updated" -> set([m \in {a.copies[j][2] : j \in DOMAIN a.copies} |->
                                                S.own[a.copies[CHOOSE j \in DOMAIN a.copies : a.copies[j][2] = m][1]]])
          [] OTHER -> S.own
JoinedNow(ev, st) == \* members of the aggregates an operation produced
    LET list == CASE ev.op \in {"env.update", "env.clone_updated"} -> st[ev.a.h].list [] ev.op = "aggr" -> ev.r [] OTHER -> <<>>
        aggs == {list[j] : j \in {x \in DOMAIN list : IsAggregate(st[list[x]])}}
    IN  UNION {{<<st[g].mem[j], st[g].ref>> : j \in DOMAIN st[g].mem} : g \in aggs}
NewGrp(ev, st) ==
    LET jn == JoinedNow(ev, st)
        base == IF ev.op = "env.clone_updated"
                THEN LET from == [m \in {ev.a.copies[j][2] : j \in DOMAIN ev.a.copies} |-> ev.a.copies[CHOOSE j \in DOMAIN ev.a.copies : ev.a.copies[j][2] = m][1]]
                     IN  [m \in {x \in DOMAIN from : from[x] \in DOMAIN S.grp} |-> S.grp[from[m]]] @@ S.grp
                ELSE IF ev.op = "ell.new" /\ ev.a.kind = "copy" /\ ev.a.src \in DOMAIN S.grp THEN (ev.a.h :> S.grp[ev.a.src]) @@ S.grp
                ELSE S.grp
    IN  IF jn = {} THEN base ELSE [m \in {p[1] : p \in jn} |-> (CHOOSE p \in jn : p[1] = m)[2]] @@ base
NewHull(ev, st) ==
    LET op == ev.op  a == ev.a
        rec(set, c, ins, mr, n) == LET q == Seqn(set) IN [c |-> c, mem |-> [j \in DOMAIN q |-> st[q[j]]], inside |-> ins, minr |-> mr, n |-> n]
        setOf(s) == {s[j] : j \in DOMAIN s}
        fresh == {h \in Changed(ev) \ DOMAIN S.st : IsAggregate(st[h]) /\ st[h].mem # <<>>}
    IN  CASE op = "hull.new" /\ Has(a, "mem") -> (a.h :> rec(setOf(a.mem), st[a.h].ref, Opt(a, "inside", FALSE), Opt(a, "minr", Half), Opt(a, "res", 500))) @@ S.hull
          [] op = "hull.new" -> S.hull
          [] op = "hull.compute" -> (a.h :> rec(setOf(a.mem), st[a.h].ref, a.inside, a.minr, Opt(a, "res", 500))) @@ S.hull
          [] op = "hull.set_res" -> [h \in DOMAIN S.hull \ {a.h} |-> S.hull[h]]
          [] op = "agg.add" /\ Opt(a, "upd", TRUE) -> (a.h :> rec(setOf(st[a.h].mem), st[a.h].ref, FALSE, Half, 500)) @@ S.hull
          [] op = "agg.add" -> [h \in DOMAIN S.hull \ {a.h} |-> S.hull[h]]
          [] op = "agg.update_hull" -> (a.h :> rec(setOf(st[a.h].mem), st[a.h].ref, FALSE, Half, 500)) @@ S.hull
          [] fresh # {} -> [h \in fresh |-> rec(setOf(st[h].mem), st[h].ref, FALSE, Half, 500)] @@ S.hull
          [] OTHER -> S.hull
NewRegs(ev) ==
    IF Has(ev.a, "reg") /\ ev.x = "" /\ ev.op # "loop"
    THEN IF ev.op = "mod.vel" THEN (ev.a.reg :> ev.r[1]) @@ (SCat(ev.a.reg, "!") :> ev.r[2]) @@ S.regs
         ELSE (ev.a.reg :> ev.r) @@ S.regs
    ELSE S.regs
Init == S = Empty(<<>>) /\ i = 0 /\ bad = {}
Step ==
    /\ i < Events
    /\ i' = i + 1
    /\ LET ev == Trace[i + 1]
       IN  IF ev.op = "reset" THEN S' = Empty(Opt(ev.a, "names", <<>>)) /\ bad' = {}
           ELSE IF ev.op = "crash" THEN S' = S /\ bad' = RaisesOK(ev)
           ELSE LET fine == ev.x = ""
                    st == Adopt(ev)
                    reg == IF fine /\ Raises(S, ev) = "" THEN NextReg2(S, ev) ELSE S.reg
                IN  /\ bad' = Fails(ev, reg)
                    /\ S' = IF ~fine THEN [S EXCEPT !.st = st, !.x = ev.x]
                            ELSE [st |-> st, reg |-> reg, own |-> NewOwn(ev, st), grp |-> NewGrp(ev, st),
                                  hull |-> NewHull(ev, st), regs |-> NewRegs(ev), names |-> S.names, x |-> ev.x]
    /\ \A b \in bad' : PrintT(SCat(IF "KNOWN" \in b[1] THEN "KNOWN|" ELSE IF Focus \in b[1] \/ Focus = "ALL" THEN "FAIL|" ELSE "OTHER|",
                                    SCat(ToString(i + 1), SCat("|", SCat(Trace[i + 1].op, SCat("|", b[2]))))))
Done == i = Events /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* the property under check is not violated by the event just replayed
Holds == \A b \in bad : (Focus \notin b[1] /\ Focus # "ALL") \/ "KNOWN" \in b[1]
Consumed == Report(0) /\ TLCGet("stats").diameter - 1 = Events
=============================================================================
