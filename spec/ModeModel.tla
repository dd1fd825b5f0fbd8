------------------------------ MODULE ModeModel ----------------------------
(* The modes of modulation: local or not, with or without repulsion, planar *)
(* or not, for an agent on a grid of places and headings among level        *)
(* ellipsoids, published one by one or aggregated.                          *)
EXTENDS DOA
CONSTANTS Scenes, Places, Headings, Marg
VARIABLES sc, ob, ag, ans, op
vars == <<sc, ob, ag, ans, op>>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == QYaw(RCos(Deg(n)), RSin(Deg(n)))
E(x, y, t, a, b, m, lin, w) == LET p == <<R(x), R(y), Zero>>
    IN  [k |-> "obs", type |-> "Ellipsoid", name |-> "", pos |-> p, ori |-> Yaw(t), lin |-> lin, ang |-> <<Zero, Zero, R(w)>>, ref |-> p,
         marg |-> Three(R(m)), axis |-> <<R(a), R(b), One>>, curv |-> Three(One)]
Scene == << <<>>,
            << E("0", "0", 0, "1", "1", "0", V0, "0") >>,
            << E("0", "0", 30, "1.6", "0.5", "0.1", <<R("0.1"), R("0.2"), Zero>>, "0.3") >>,
            << E("0", "0", 60, "1.2", "0.4", "0", V0, "0"), E("3.4", "0.3", 110, "0.7", "1", "0.2", <<R("-0.2"), Zero, Zero>>, "0") >>,
            << E("0", "0", 150, "1", "0.6", "0", V0, "0"), E("1.1", "0.7", 20, "0.9", "0.5", "0.05", V0, "0"), E("-2.5", "2", 0, "0.6", "0.6", "0", <<Zero, R("0.1"), Zero>>, "-0.2") >> >>
Spot(k) == <<RAdd(R("-2.1"), RMul(R("0.83"), RInt(k % 7))), RAdd(R("-1.9"), RMul(R("0.77"), RInt(k \div 7))), Zero>>          \* k in 0..41
Vel(h) == IF h = 99 THEN V0 ELSE VScale(<<R("0.03"), R("0.6"), R("1.7")>>[1 + (h % 3)], <<RCos(Deg(h * 29)), RSin(Deg(h * 29)), Zero>>)
-----------------------------------------------------------------------------
(* the whole operation, for single ellipsoids                               *)
D(o, a) == Tab([j \in DOMAIN o |-> Gamma(o[j], a.pos, Three(a.sm))])
Nrm(o, a) == Tab([j \in DOMAIN o |-> QRot(o[j].ori, Unit(Gradient(o[j], a.pos, Three(a.sm))))])
Sight(o, a) == Or3({Overlap3Rec(a.env @@ [ori |-> QId], o[j]) : j \in DOMAIN o})
Shifted(o, a) == Tab([j \in DOMAIN o |-> LET s == Shift(o[j], a) IN IF s.s = "yes" THEN [o[j] EXCEPT !.ref = s.ref] ELSE o[j]])
Repulsion(o, a) == LET d == D(o, a) IN VSum([j \in DOMAIN o |-> IF RLt(d[j], R("1.1")) THEN VScale(RDiv(Two, d[j]), VSub(a.pos, o[j].ref)) ELSE V0])
Modulated(o, a, loc, rep, planar) ==
    IF o = <<>> \/ (loc /\ Sight(o, a) = "no") THEN [ok |-> TRUE, v |-> a.lin, ob |-> o]
    ELSE LET s == IF planar THEN Shifted(o, a) ELSE o
             l == Law(a.pos, a.lin, s, D(s, a), Nrm(s, a), One, Two)
             r == Repulsion(s, a)
         IN  [ok |-> l.ok /\ ~(loc /\ Sight(o, a) = "maybe"), ob |-> s, v |-> IF rep /\ RGt(Norm(r), R("1e-4")) THEN VAdd(l.v, r) ELSE l.v]
Flags == <<FALSE, TRUE>>
Answers(o, a) == Tab([i \in 1..2 |-> Tab([j \in 1..2 |-> Tab([k \in 1..2 |-> Modulated(o, a, Flags[i], Flags[j], Flags[k])])])])
-----------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Hn(j) == <<"e1", "e2", "e3">>[j]
Nm(j) == <<"gull", "wren", "crow">>[j]
Build(o, agg) ==
    <<[op |-> "reset", nohull |-> TRUE]>>
    \o Flat([j \in DOMAIN o |->
           << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> o[j].pos, q |-> o[j].ori, lin |-> o[j].lin, ang |-> o[j].ang],
              [op |-> "ell.new", h |-> Hn(j), kind |-> "state", name |-> Nm(j), s |-> "S1", m3 |-> o[j].marg], [op |-> "o.set_axis", h |-> Hn(j), v |-> o[j].axis] >>])
    \o <<[op |-> "env.new", h |-> "E1", agg |-> agg]>> \o [j \in DOMAIN o |-> [op |-> "env.add", h |-> "E1", o |-> Hn(j)]]
    \o << [op |-> "env.update", h |-> "E1"], [op |-> "agent.new", h |-> "a1", kind |-> "def"] >>
Vel3(a, l, r, p) == [op |-> "mod.vel", a |-> "a1", e |-> "E1", local |-> l, rep |-> r, planar |-> p]
Ask(o, a) ==
    << [op |-> "agent.set_margin", h |-> "a1", m |-> a.sm], [op |-> "agent.set_position", h |-> "a1", v |-> a.pos], [op |-> "agent.set_lin", h |-> "a1", v |-> a.lin] >>
    \o Flat([j \in DOMAIN o |-> << [op |-> "agent.in_obs", h |-> "a1", o |-> Hn(j)], [op |-> "agent.env_inter", h |-> "a1", l |-> <<Hn(j)>>],
                                   [op |-> "q.repv", h |-> Hn(j), a |-> "a1"], [op |-> "q.genrep", h |-> Hn(j), a |-> "a1"] >>])
    \o << [op |-> "mod.vel", a |-> "a1", e |-> "E1"], [op |-> "mod.vel", a |-> "a1", e |-> "E1", local |-> TRUE],
          Vel3(a, FALSE, TRUE, FALSE), Vel3(a, TRUE, TRUE, FALSE), Vel3(a, TRUE, TRUE, TRUE), Vel3(a, FALSE, FALSE, TRUE), Vel3(a, TRUE, FALSE, TRUE), Vel3(a, FALSE, TRUE, TRUE),
          Vel3(a, TRUE, FALSE, TRUE) @@ [crit |-> R("1.5")], Vel3(a, TRUE, FALSE, FALSE) @@ [crit |-> R("1.5"), pow |-> One] >>
Agent(k, h, m) == AgentRec([p |-> Spot(k), q |-> QId], Vel(h), V0, m)
Init == /\ sc \in Scenes \X BOOLEAN \X Marg
        /\ ob = Scene[sc[1]] /\ ag = Agent(0, 99, R(sc[3])) /\ ans = <<>> /\ op = <<>>
\* the same headings at every place, in one script per place
At(k) == /\ ans = <<>>
         /\ ag' = Agent(k, CHOOSE h \in Headings : TRUE, R(sc[3]))
         /\ ans' = Tab([h \in 1..Cardinality(Headings) |-> LET a == Agent(k, Seqn(Headings)[h], R(sc[3])) IN [a |-> a, r |-> Answers(ob, a)]])
         /\ op' = Build(ob, sc[2]) \o Flat([h \in DOMAIN ans' |-> Ask(ob, ans'[h].a)])
         /\ UNCHANGED <<sc, ob>>
Next == \E k \in Places : At(k)
Spec == Init /\ [][Next]_vars
Written == Emit("SEG", op')
view == <<sc, ag.pos, ans = <<>>>>
-----------------------------------------------------------------------------
Each(P(_, _)) == \A h \in DOMAIN ans : P(ans[h].a, ans[h].r)
L(r, i, j, k) == r[i][j][k]
\* the command is kept out of sight whatever else is asked for, and the local answer is the full one in sight
Local == Each(LAMBDA a, r : \A j, k \in 1..2 :
    CASE Sight(ob, a) = "no" -> L(r, 2, j, k).v = a.lin /\ L(r, 2, j, k).ob = ob
      [] Sight(ob, a) = "yes" -> L(r, 2, j, k).v = L(r, 1, j, k).v
      [] OTHER -> TRUE)
\* an agent inside an obstacle, or heading for one within the look-ahead, has it in sight
Seen == Each(LAMBDA a, r :
    LET touched == \E j \in DOMAIN ob : RLt(Gamma(ob[j], a.pos, V0), R("0.95"))
        ahead == \E j \in DOMAIN ob : RLt(Gamma(ob[j], VAdd(a.pos, VScale(LookAhead, Unit(a.lin))), V0), R("0.95"))
    IN  (touched \/ ahead) => Sight(ob, a) # "no")
\* what is far beyond the reach of the envelope is not in sight
Unseen == Each(LAMBDA a, r :
    (\A j \in DOMAIN ob : RGt(Norm(VSub(a.pos, ob[j].pos)), RAdd(RAdd(R("1.2"), EnvMargin(a.sm)), RAdd(RMax(ob[j].axis[1], ob[j].axis[2]), ob[j].marg[1])))) => Sight(ob, a) = "no")
\* repulsion never pulls towards the reference point of the only obstacle, ends at distance value 1.1 and fades outwards
Pushes == Each(LAMBDA a, r :
    LET p == Repulsion(ob, a)
    IN  /\ (\A j \in DOMAIN ob : RGe(D(ob, a)[j], R("1.1"))) => p = V0
        /\ Len(ob) = 1 => RGe(Dot(p, VSub(a.pos, ob[1].ref)), Zero)
        /\ L(r, 1, 1, 1).ok => VNear(L(r, 1, 2, 1).v, IF RGt(Norm(p), R("1e-4")) THEN VAdd(L(r, 1, 1, 1).v, p) ELSE L(r, 1, 1, 1).v, Tol))
\* planar mode: shifting again for the same heading changes nothing more, and turning back neither
Once == Each(LAMBDA a, r :
    LET s == L(r, 1, 1, 2).ob
        back == AgentRec([p |-> a.pos, q |-> QId], VNeg(a.lin), V0, a.sm)
    IN  \A j \in DOMAIN s : VNear(Shifted(s, a)[j].ref, s[j].ref, Tol) /\ (RGt(Norm(a.lin), R("1e-3")) => VNear(Shifted(ob, back)[j].ref, s[j].ref, TolQ)))
\* shifted reference points lie on the line of motion, inside the outline
Heading == Each(LAMBDA a, r :
    \A j \in DOMAIN ob : LET s == Shift(ob[j], a)  d == VSub(s.ref, a.pos)
                         IN  s.s = "yes" => /\ RLe(RAbs(Cross(d, Unit(a.lin))[3]), R("1e-7"))
                                            /\ RLt(Level(Outline(ob[j], TRUE), s.ref[1], s.ref[2]), One))
=============================================================================
