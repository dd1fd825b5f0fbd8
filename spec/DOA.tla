--------------------------------- MODULE DOA -------------------------------
(* State and transitions of dynamic_obstacle_avoidance.                     *)
(*                                                                          *)
(* A state S is a record:                                                   *)
(*   st   object handle -> attributes of the live object (poses, states,    *)
(*        obstacles, agents, environments; field k says which)              *)
(*   reg  environment -> registered name -> obstacle handle                 *)
(*   own  obstacle -> the reference position given to it (construction,     *)
(*        setter, shift), whatever aggregates did to it since               *)
(*   grp  obstacle -> reference position of the aggregate it last joined    *)
(*   hull hull or aggregate -> member outlines and centre its surface was   *)
(*        computed from                                                     *)
(* An operation ev has a name ev.op and arguments ev.a.  Post(S, ev) gives  *)
(* the attributes after the operation of every object it determines         *)
(* completely; everything else keeps its attributes (Published describes    *)
(* the lists an update hands out).  Questions are answered by Gamma,        *)
(* Gradient, Inside3, Overlap3, ... of Shapes and below.                    *)
EXTENDS Modul
Has(r, f) == f \in DOMAIN r
Sorted(names) == SortSeq(names, LAMBDA a, b : SLt(a, b))
SetSeq(s) == CHOOSE q \in [1..Cardinality(s) -> s] : TRUE
RECURSIVE Seqn(_)
Seqn(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Seqn(s \ {x})
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE SCat(Head(s), Concat(Tail(s)))
-----------------------------------------------------------------------------
(* construction                                                             *)
PoseRec(p) == [k |-> "pose", pos |-> p.p, ori |-> p.q]
AsPose(r)  == [p |-> r.pos, q |-> r.ori]
StateRec(p, lin, ang) == [k |-> "state", pos |-> p.p, ori |-> p.q, lin |-> lin, ang |-> ang]
MarginOf(a) == IF Has(a, "m") THEN Three(a.m) ELSE IF Has(a, "m3") THEN a.m3 ELSE Three(Zero)
Body(type, name, pos, ori, lin, ang, ref, marg) ==
    [k |-> "obs", type |-> type, name |-> name, pos |-> pos, ori |-> ori, lin |-> lin, ang |-> ang,
     ref |-> ref, marg |-> marg]
NewBody(S, type, a) ==
    LET name == IF Has(a, "name") THEN a.name ELSE ""
        m == MarginOf(a)
    IN  CASE a.kind = "name" -> Body(type, name, V0, QId, V0, V0, V0, m)
          [] a.kind = "xyz"  -> Body(type, name, a.v, QId, V0, V0, a.v, m)
          [] a.kind = "state" -> LET s == S.st[a.s] IN Body(type, name, s.pos, s.ori, s.lin, s.ang, s.pos, m)
          [] a.kind = "sref"  -> LET s == S.st[a.s] IN Body(type, name, s.pos, s.ori, s.lin, s.ang, a.ref, m)
Unshaped == [axis |-> Three(One), curv |-> Three(One)]
NewEllipsoid(S, a) == IF a.kind = "copy" THEN S.st[a.src] ELSE NewBody(S, "Ellipsoid", a) @@ Unshaped
-----------------------------------------------------------------------------
(* agents and their look-ahead envelope                                     *)
LookAhead == Half
EnvMargin(m) == RMax(R("0.1"), m)
EnvelopeOf(pos, lin, m) ==
    LET u == Unit(lin)
        off == VScale(LookAhead, u)
        c == VAdd(pos, off)
        b == EnvMargin(m)
        h == Hyp(u[1], u[2])
        base == [k |-> "obs", type |-> "Ellipsoid", pos |-> c, ref |-> c,
                 axis |-> <<RAdd(Norm(off), b), b, b>>, marg |-> Three(Zero), curv |-> Three(One)]
    IN  IF RGt(h, R("1e-12")) THEN base @@ [ori |-> QYaw(RDiv(u[1], h), RDiv(u[2], h))]
        ELSE base                                  \* no horizontal direction to turn to
AgentRec(p, lin, ang, m) ==
    [k |-> "agent", pos |-> p.p, ori |-> p.q, lin |-> lin, ang |-> ang, sm |-> m, env |-> EnvelopeOf(p.p, lin, m)]
Moved(r, p)  == AgentRec(p, r.lin, r.ang, r.sm)
NewAgent(S, a) ==
    IF a.kind = "copy" THEN S.st[a.src]
    ELSE LET m == IF Has(a, "m") THEN a.m ELSE Zero
         IN  IF a.kind = "def" THEN AgentRec(PId, V0, V0, m)
             ELSE LET s == S.st[a.s] IN AgentRec(AsPose(s), s.lin, s.ang, m)
-----------------------------------------------------------------------------
(* aggregates                                                               *)
IsAggregate(r) == r.k = "obs" /\ r.type = "Aggregate"
Members(S, h) == IF IsAggregate(S.st[h]) THEN {S.st[h].mem[i] : i \in DOMAIN S.st[h].mem} ELSE {h}
AggregateName(S, set) ==
    LET names == Sorted([i \in DOMAIN Seqn(set) |-> S.st[Seqn(set)[i]].name])
    IN  SCat("aggregate", Concat([i \in DOMAIN names |-> SCat("_", names[i])]))
AggregateCentre(S, set) == LET q == Seqn(set) IN VMean([i \in DOMAIN q |-> S.st[q[i]].pos])
AggregateRec(S, set) ==
    LET c == AggregateCentre(S, set)
    IN  Body("Aggregate", AggregateName(S, set), c, QId, V0, V0, c, Three(Zero))
        @@ [mem |-> Seqn(set)]
\* joining: the aggregate itself, and the reference position of every member
Joined(S, g, set) ==
    LET r == AggregateRec(S, set)
    IN  (g :> r) @@ [m \in set |-> [S.st[m] EXCEPT !.ref = r.pos]]
-----------------------------------------------------------------------------
(* three-valued questions (borderline answers are "maybe")                  *)
Inside3Ell(r, v) ==
    LET e == Outline(r, TRUE)  l == Level(e, v[1], v[2])
    IN  IF ~IsPlanar(r) \/ ~Proper(e) THEN "maybe"
        ELSE IF RLt(l, R("0.999999999")) THEN "yes" ELSE IF RGt(l, R("1.000000001")) THEN "no" ELSE "maybe"
Polar(c, v) == [r |-> Hyp(RSub(v[1], c[1]), RSub(v[2], c[2])), t |-> RAtan2(RSub(v[2], c[2]), RSub(v[1], c[1]))]
HullOuts(hu) == [i \in DOMAIN hu.mem |-> Outline(hu.mem[i], TRUE)]
HullBound(hu, v, inside) == HullBounds(HullOuts(hu), hu.c[1], hu.c[2], Polar(hu.c, v).t, inside, hu.minr, hu.n)
Inside3Hull(hu, v, inside) ==
    LET b == HullBound(hu, v, inside)  r == Polar(hu.c, v).r
    IN  IF RLt(r, b.lo) THEN "yes" ELSE IF RGt(r, b.hi) THEN "no" ELSE "maybe"
Inside3(S, h, v) ==
    LET r == S.st[h]
    IN  CASE r.type = "Ellipsoid" -> Inside3Ell(r, v)
          [] r.type = "Aggregate" ->
                LET m == Or3({Inside3Ell(S.st[x], v) : x \in Members(S, h)})
                IN  IF m = "yes" THEN "yes"
                    ELSE IF ~Has(S.hull, h) THEN "maybe"
                    ELSE Or3({m, Inside3Hull(S.hull[h], v, FALSE)})
          [] r.type = "StarShapeHull" -> IF Has(S.hull, h) THEN Inside3Hull(S.hull[h], v, S.hull[h].inside) ELSE "maybe"
          [] OTHER -> "maybe"
Overlap3Rec(r, q) == IF IsPlanar(r) /\ IsPlanar(q) THEN OutlinesOverlap(Outline(r, TRUE), Outline(q, TRUE)) ELSE "maybe"
\* does ellipsoid record r overlap obstacle h
OverlapRec(S, r, h) == Or3({Overlap3Rec(r, S.st[m]) : m \in Members(S, h)})
Overlap3(S, h, o) == Or3({OverlapRec(S, S.st[m], o) : m \in Members(S, h)})
Closed3(S, h) ==
    LET r == S.st[h]
    IN  IF r.type \in {"Aggregate", "StarShapeHull"}
        THEN IF ~Has(S.hull, h) THEN "maybe"
             ELSE LET hu == S.hull[h]
                  IN  HullClosed(HullOuts(hu), hu.c[1], hu.c[2], IF r.type = "Aggregate" THEN FALSE ELSE hu.inside, hu.minr, hu.n)
        ELSE "yes"
Disc(a) == [pos |-> a.pos, ori |-> QId, axis |-> Three(EnvMargin(a.sm)), marg |-> Three(Zero)]
\* distance value: [lo, hi] interval, a point for ellipsoids
Dist(S, h, v, extra) ==
    LET r == S.st[h]
    IN  CASE r.type = "Ellipsoid" ->
                IF LengthsUnclear(r, extra) THEN [lo |-> R("-1"), hi |-> R("inf")]
                ELSE LET g == Gamma(r, v, extra)
                         e == GammaSlack(r, v, extra)
                     IN  [lo |-> RSub(g, e), hi |-> RAdd(g, e)]
          [] OTHER ->
                LET ins == IF r.type = "Aggregate" THEN Inside3(S, h, v)
                           ELSE IF Has(S.hull, h) THEN IF S.hull[h].inside THEN "yes" ELSE "no" ELSE "maybe"
                    hu == S.hull[h]
                    b == HullBound(hu, v, ins = "yes")
                    rad == Polar(hu.c, v).r
                IN  IF ins = "maybe" THEN [lo |-> R("-1"), hi |-> R("inf")]
                    ELSE IF ins = "yes" THEN [lo |-> RDiv(b.lo, rad), hi |-> RDiv(b.hi, rad)]
                    ELSE [lo |-> RDiv(rad, b.hi), hi |-> RDiv(rad, b.lo)]
-----------------------------------------------------------------------------
(* reference point shift of planar mode                                     *)
\* [s: "yes"/"no"/"maybe", ref]
Shift(r, a) ==
    IF r.type # "Ellipsoid" THEN [s |-> "no", ref |-> r.ref]
    ELSE LET e == Outline(r, TRUE)
             w == VAdd(a.pos, a.lin)
             k == LineCoef(e, a.pos[1], a.pos[2], w[1], w[2])
             p == LineParams(k).mid
             pt == VAdd(a.pos, VScale(p, a.lin))
         IN  IF REq(a.lin[1], Zero) /\ REq(a.lin[2], Zero) /\ (REq(a.lin[3], Zero) \/ IsPlanar(r)) THEN [s |-> "no", ref |-> r.ref]
             ELSE IF \/ ~IsPlanar(r) \/ ~Proper(e) \/ RLt(k.A, R("1e-24"))
                     \* the two points are too close together to give a direction
                     \/ RLt(RAdd(RAbs(a.lin[1]), RAbs(a.lin[2])), RMul(R("1e-6"), RAdd(One, RAdd(RAbs(a.pos[1]), RAbs(a.pos[2]))))) THEN [s |-> "maybe", ref |-> r.ref]
             ELSE [s |-> LineMeets(k), ref |-> <<pt[1], pt[2], r.pos[3]>>]
-----------------------------------------------------------------------------
(* environments                                                             *)
Registered(S, e) == {S.reg[e][n] : n \in DOMAIN S.reg[e]}
ByName(S, e) == LET names == Sorted(Seqn(DOMAIN S.reg[e])) IN [i \in DOMAIN names |-> S.reg[e][names[i]]]
\* what looking name n up in environment e must find, given its record r = S.st[e]
Lookup(S, e, r, n) ==
    IF n \in DOMAIN S.reg[e] THEN S.reg[e][n]
    ELSE LET c == {i \in DOMAIN r.list : IsAggregate(S.st[r.list[i]]) /\ S.st[r.list[i]].name = n}
         IN  IF r.agg /\ c # {} THEN r.list[CHOOSE i \in c : \A j \in c : i <= j] ELSE "absent"
\* pairwise overlaps of a set of obstacles, and connection through a set of edges
OverlapMap(S, set) ==
    LET q == Seqn(set)
    IN  [p \in {<<i, j>> \in (DOMAIN q) \X (DOMAIN q) : i < j} |-> [a |-> q[p[1]], b |-> q[p[2]], v |-> Overlap3(S, q[p[1]], q[p[2]])]]
RECURSIVE Reach(_, _)
Reach(set, edges) ==
    LET more == set \cup {e[2] : e \in {x \in edges : x[1] \in set}} \cup {e[1] : e \in {x \in edges : x[2] \in set}}
    IN  IF more = set THEN set ELSE Reach(more, edges)
\* groups: the published list as a set of sets of handles.  It has to put certainly overlapping
\* obstacles together and only obstacles linked by possible overlaps.
GroupingOK(S, set, groups) ==
    LET m == OverlapMap(S, set)
        edges(V) == {<<m[p].a, m[p].b>> : p \in {x \in DOMAIN m : m[x].v \in V}}
        sure == edges({"yes"})
        poss == edges({"yes", "maybe"})
    IN  /\ UNION groups = set
        /\ \A g \in groups : \A x \in g : Reach({x}, sure) \subseteq g
        /\ \A g \in groups : \A x \in g : g \subseteq Reach({x}, {e \in poss : e[1] \in g /\ e[2] \in g})
-----------------------------------------------------------------------------
(* transitions: what an operation makes of the objects it changes           *)
Post(S, ev) ==
    LET a == ev.a
        h == IF Has(a, "h") THEN a.h ELSE ""
        op == ev.op
        old == S.st[h]
        ag(r) == AgentRec(AsPose(r), r.lin, r.ang, r.sm)
    IN
    CASE op = "pose.new" -> h :> PoseRec(
            CASE a.kind = "def" -> PId
              [] a.kind \in {"pos", "xyz"} -> [p |-> a.v, q |-> QId]
              [] a.kind \in {"pq", "xyzq"} -> [p |-> a.v, q |-> QUnit(a.q)]
              [] OTHER -> AsPose(S.st[a.s]))
      [] op \in {"pose.set_position", "pose.set_position3", "state.set_position", "state.set_position3"} ->
            h :> [old EXCEPT !.pos = a.v]
      [] op \in {"pose.set_orientation", "state.set_orientation"} -> h :> [old EXCEPT !.ori = QUnit(a.q)]
      [] op = "pose.mulassign" -> h :> PoseRec(PMul(AsPose(old), AsPose(S.st[a.s])))
      [] op = "pose.mul" -> h :> PoseRec(PMul(AsPose(S.st[a.s]), AsPose(S.st[a.t])))
      [] op = "pose.inv" -> h :> PoseRec(PInv(AsPose(S.st[a.s])))
      [] op = "state.new" -> h :> (
            CASE a.kind = "def" -> StateRec(PId, V0, V0)
              [] a.kind = "pose" -> StateRec(AsPose(S.st[a.p]), V0, V0)
              [] a.kind \in {"xyz", "pos"} -> StateRec([p |-> a.v, q |-> QId], V0, V0)
              [] a.kind = "pq" -> StateRec([p |-> a.v, q |-> QUnit(a.q)], V0, V0)
              [] a.kind = "full" -> StateRec([p |-> a.v, q |-> QUnit(a.q)], a.lin, a.ang)
              [] OTHER -> S.st[a.s])
      [] op = "state.set_pose" -> h :> [old EXCEPT !.pos = S.st[a.p].pos, !.ori = S.st[a.p].ori]
      [] op = "state.set_lin" -> h :> [old EXCEPT !.lin = a.v]
      [] op = "state.set_ang" -> h :> [old EXCEPT !.ang = a.v]
      [] op = "obs.new" -> h :> NewBody(S, "", a)
      [] op = "ell.new" -> h :> NewEllipsoid(S, a)
      [] op = "hull.new" ->
            LET c == IF Has(a, "mem") THEN AggregateCentre(S, {a.mem[i] : i \in DOMAIN a.mem}) ELSE V0
            IN  h :> Body("StarShapeHull", "", c, QId, V0, V0, c, Three(Zero))
      [] op = "hull.compute" ->
            LET c == IF Has(a, "ref") THEN a.ref ELSE AggregateCentre(S, {a.mem[i] : i \in DOMAIN a.mem})
            IN  h :> [old EXCEPT !.pos = c, !.ref = c]
      [] op = "agg.new" -> IF Has(a, "mem") THEN Joined(S, h, {a.mem[i] : i \in DOMAIN a.mem})
                           ELSE h :> (Body("Aggregate", "aggregate", V0, QId, V0, V0, V0, Three(Zero)) @@ [mem |-> <<>>])
      [] op = "agg.add" -> Joined(S, h, {old.mem[i] : i \in DOMAIN old.mem} \cup {a.o})
      [] op = "o.set_name" -> h :> [old EXCEPT !.name = a.name]
      [] op = "o.set_pose" -> h :> [old EXCEPT !.pos = S.st[a.p].pos, !.ori = S.st[a.p].ori]
      [] op \in {"o.set_position", "o.set_position3"} -> h :> [old EXCEPT !.pos = a.v]
      [] op = "o.set_orientation" -> h :> [old EXCEPT !.ori = QUnit(a.q)]
      [] op = "o.set_lin" -> h :> [old EXCEPT !.lin = a.v]
      [] op = "o.set_ang" -> h :> [old EXCEPT !.ang = a.v]
      [] op = "o.set_ref" -> [m \in Members(S, h) \cup {h} |-> [S.st[m] EXCEPT !.ref = a.v]]
      [] op = "o.set_axis" -> h :> [old EXCEPT !.axis = a.v]
      [] op = "o.set_curv" -> h :> [old EXCEPT !.curv = a.v]
      [] op = "o.shift" -> LET s == Shift(old, S.st[a.a])
                           IN  IF s.s = "yes" THEN h :> [old EXCEPT !.ref = s.ref]
                               ELSE IF s.s = "no" THEN h :> old ELSE <<>>
      [] op = "agent.new" -> h :> NewAgent(S, a)
      [] op = "agent.assign" -> h :> S.st[a.src]
      [] op = "agent.set_margin" -> h :> ag([old EXCEPT !.sm = a.m])
      [] op = "agent.set_pose" -> h :> Moved(old, AsPose(S.st[a.p]))
      [] op = "agent.set_position" -> h :> ag([old EXCEPT !.pos = a.v])
      [] op = "agent.set_orientation" -> h :> ag([old EXCEPT !.ori = QUnit(a.q)])
      [] op = "agent.set_lin" -> h :> ag([old EXCEPT !.lin = a.v])
      [] op = "agent.set_ang" -> h :> ag([old EXCEPT !.ang = a.v])
      [] op = "agent.transform" -> h :> Moved(old, PMul(AsPose(S.st[a.p]), AsPose(old)))
      [] op = "agent.transformed" -> h :> Moved(S.st[a.src], PMul(AsPose(S.st[a.p]), AsPose(S.st[a.src])))
      [] OTHER -> <<>>
\* exception an operation has to raise ("" for none)
Raises(S, ev) ==
    CASE ev.op = "env.add" -> IF S.st[ev.a.o].name \in DOMAIN S.reg[ev.a.h] THEN "already" ELSE ""
      [] ev.op = "env.remove" -> IF ev.a.name \in DOMAIN S.reg[ev.a.h] THEN "" ELSE "missing"
      [] ev.op = "env.get" -> IF Lookup(S, ev.a.h, S.st[ev.a.h], ev.a.name) = "absent" THEN "missing" ELSE ""
      [] ev.op = "mt.linspace" -> IF ev.a.n < 2 THEN "std" ELSE ""
      [] ev.op = "mt.grid" -> IF ev.a.n < 2 \/ ev.a.n2 < 2 THEN "std" ELSE ""
      [] OTHER -> ""
\* registries after an operation that did not raise
NextReg(S, ev) ==
    LET a == ev.a
    IN  CASE ev.op = "env.new" -> (a.h :> <<>>) @@ S.reg
          [] ev.op = "env.copy" -> (a.h :> S.reg[a.src]) @@ S.reg
          [] ev.op = "env.add" -> [S.reg EXCEPT ![a.h] = (S.st[a.o].name :> a.o) @@ @]
          [] ev.op = "env.remove" -> [S.reg EXCEPT ![a.h] = [n \in DOMAIN @ \ {a.name} |-> @[n]]]
          [] OTHER -> S.reg
=============================================================================
