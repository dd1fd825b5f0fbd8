------------------------------ MODULE LawModel -----------------------------
(* The modulation law on a grid of scenes: shapes, orientations, reference  *)
(* points, motions and obstacle numbers; agents on level surfaces around    *)
(* the first obstacle; commanded velocities in all directions.  TLC checks  *)
(* the theorems below on the law itself and writes every scene out for      *)
(* replay in the library.                                                   *)
EXTENDS DOA, Lattice, SequencesExt
CONSTANTS Shapes, Turns, Refs, Motions, Crowds, Levels, Pairs
VARIABLES sc, g, obs, at, res, op    \* scene, level, obstacles, points asked, the law there for every velocity
vars == <<sc, g, obs, at, res, op>>
-----------------------------------------------------------------------------
(* scenes                                                                   *)
Shape == << [axis |-> Three(One), marg |-> Three(Zero), curv |-> Three(One)],
            [axis |-> <<Two, One, Half>>, marg |-> Three(Zero), curv |-> Three(One)],
            [axis |-> <<R("0.6"), R("1.5"), One>>, marg |-> <<R("0.2"), R("0.1"), Zero>>, curv |-> Three(One)],
            [axis |-> <<One, R("1.2"), R("0.8")>>, marg |-> Three(R("0.1")), curv |-> Three(Two)],
            [axis |-> <<R("1.4"), R("0.7"), One>>, marg |-> Three(Zero), curv |-> <<One, Two, R("3")>>] >>
Y45 == QYaw(RSqrt(Half), RSqrt(Half))
R45 == <<RCos(RDiv(Pi, RInt(8))), RSin(RDiv(Pi, RInt(8))), Zero, Zero>>
Turn == <<QId, QYaw90, QRoll90, Y45, QMul(Y45, R45), QMul(R45, QYaw90)>>
RefAt == << V0, <<R("0.3"), R("-0.2"), Zero>>, <<R("-0.25"), R("0.1"), R("0.3")>> >>
Motion == << [lin |-> V0, ang |-> V0], [lin |-> <<R("0.2"), R("-0.1"), Zero>>, ang |-> V0],
             [lin |-> V0, ang |-> <<Zero, Zero, R("0.4")>>], [lin |-> <<Zero, R("0.3"), R("0.1")>>, ang |-> <<R("0.2"), Zero, R("-0.3")>>] >>
\* further obstacles of a crowd: <<shape, turn, reference, motion, position>>
Crowd == << <<>>, << <<1, 1, 1, 1, <<R("6"), One, Zero>> >> >>,
            << <<2, 4, 2, 2, <<R("-1"), R("5"), One>> >> >>,
            << <<3, 1, 1, 1, <<R("5"), R("-4"), Half>> >>, <<4, 2, 1, 3, <<R("-6"), R("-2"), Zero>> >> >>,
            \* one so close that an agent can touch two
            << <<1, 1, 1, 1, <<R("1.5"), R("1.5"), Zero>> >> >> >>
Make(s, t, f, m, pos) ==
    LET b == Shape[s]
    IN  [k |-> "obs", type |-> "Ellipsoid", name |-> "", pos |-> pos, ori |-> Turn[t], lin |-> Motion[m].lin, ang |-> Motion[m].ang,
         ref |-> VAdd(pos, QRot(Turn[t], [i \in 1..3 |-> RMul(RefAt[f][i], b.axis[i])])),
         marg |-> b.marg, axis |-> b.axis, curv |-> b.curv]
Home == <<R("0.4"), R("-0.3"), R("0.2")>>
Obst(s) == Tab(<<Make(s[1], s[2], s[3], s[4], Home)>> \o
           [i \in DOMAIN Crowd[s[5]] |-> LET c == Crowd[s[5]][i] IN Make(c[1], c[2], c[3], c[4], c[5])])
H2 == RSqrt(Half)
T3 == RSqrt(RDiv(One, RInt(3)))
Ways == << EX, VNeg(EX), EY, VNeg(EY), EZ, VNeg(EZ), <<H2, H2, Zero>>, <<RNeg(H2), H2, Zero>>, <<H2, Zero, RNeg(H2)>>,
           <<T3, T3, T3>>, <<RNeg(T3), T3, RNeg(T3)>>, <<R("0.8"), R("-0.6"), Zero>> >>
\* the point in local direction u of obstacle o whose level value is l
RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(o, u, l, lo, hi, n) ==
    LET m == RMul(Half, RAdd(lo, hi))
    IN  IF n = 0 THEN m
        ELSE IF RLt(Gamma([o EXCEPT !.pos = V0, !.ori = QId], VScale(m, u), Three(Zero)), l) THEN Bisect(o, u, l, m, hi, n - 1) ELSE Bisect(o, u, l, lo, m, n - 1)
At(o, u, l) == ToWorld(o, VScale(IF o.curv[1] = o.curv[2] /\ o.curv[2] = o.curv[3]
                                 THEN RPow(RDiv(l, Gamma([o EXCEPT !.pos = V0, !.ori = QId], u, Three(Zero))), RDiv(One, RMul(Two, o.curv[1])))
                                 ELSE Bisect(o, u, l, Zero, R("16"), 50), u))
Lev == <<Half, R("0.999999"), R("1.05"), Two, R("20")>>
Points(o, l) == Tab([j \in DOMAIN Ways |-> At(o, Ways[j], Lev[l])])
-----------------------------------------------------------------------------
(* the law at a point                                                       *)
N0 == Three(Zero)
D(ob, x) == Tab([j \in DOMAIN ob |-> Gamma(ob[j], x, N0)])
Nrm(ob, x) == Tab([j \in DOMAIN ob |-> QRot(ob[j].ori, Unit(Gradient(ob[j], x, N0)))])
L(ob, x, v) == Law(x, v, ob, D(ob, x), Nrm(ob, x), One, Two)
Vels(l) == << VScale(R("0.7"), Ways[l]), VScale(R("1.3"), Ways[1 + ((l * 5) % 12)]), <<R("0.3"), R("0.9"), R("-0.2")>>, <<R("-0.05"), R("0.02"), R("0.01")>> >>
-----------------------------------------------------------------------------
(* states: a scene is chosen, then a level                                  *)
Init == /\ sc \in Shapes \X Turns \X Refs \X Motions \X Crowds
        /\ g = 0 /\ op = <<>> /\ obs = Obst(sc) /\ at = <<>> /\ res = <<>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Hn(p, j) == SCat(p, <<"1", "2", "3">>[j])
Nm(p, j) == <<"gull", "wren", "crow">>[IF p = "g" THEN 4 - j ELSE j]
\* obstacles ob with handles p1, p2, .. in environment e
BuildIn(ob, p, e) == Flat([j \in DOMAIN ob |->
    << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> ob[j].pos, q |-> ob[j].ori, lin |-> ob[j].lin, ang |-> ob[j].ang],
       [op |-> "ell.new", h |-> Hn(p, j), kind |-> "sref", name |-> Nm(p, j), s |-> "S1", ref |-> ob[j].ref, m3 |-> ob[j].marg],
       [op |-> "o.set_axis", h |-> Hn(p, j), v |-> ob[j].axis], [op |-> "o.set_curv", h |-> Hn(p, j), v |-> ob[j].curv] >>])
    \o <<[op |-> "env.new", h |-> e, agg |-> FALSE]>> \o [j \in DOMAIN ob |-> [op |-> "env.add", h |-> e, o |-> Hn(p, j)]]
    \o << [op |-> "env.update", h |-> e] >>
Ask(pts) == Flat([j \in DOMAIN Ways |->
    << [op |-> "agent.set_position", h |-> "a1", v |-> pts[j]],
       [op |-> "q.agentq", h |-> "e1", a |-> "a1"], [op |-> "mod.matrix", o |-> "e1", a |-> "a1"] >>
    \o Flat([k \in 1..4 |-> << [op |-> "agent.set_lin", h |-> "a1", v |-> Vels(j)[k]], [op |-> "mod.vel", a |-> "a1", e |-> "E1"] >>])
    \o << [op |-> "mod.vel", a |-> "a1", e |-> "E1", local |-> TRUE], [op |-> "mod.vel", a |-> "a1", e |-> "E1", local |-> FALSE, rep |-> TRUE] >>])
\* the scene again: turned and shifted, with other names in another order, and with all speeds scaled
Rots == SetToSeq(Rotations)
Away == <<R("3"), R("-2"), One>>
Turned(o, m, t) == [o EXCEPT !.pos = VAdd(t, QRot(Quat[m], @)), !.ref = VAdd(t, QRot(Quat[m], @)), !.ori = QMul(Quat[m], @),
                             !.lin = QRot(Quat[m], @), !.ang = QRot(Quat[m], @)]
Pick(l) == Rots[1 + ((sc[1] * 7 + sc[2] * 5 + sc[3] * 3 + sc[4] * 11 + sc[5] + l * 13) % 24)]
Fac == R("2.5")
Compare(m, pts, rs) ==
    LET to(x) == VAdd(Away, QRot(Quat[m], x))
        rel(kind, label, y, tol) == [op |-> "relate", kind |-> kind, props |-> {"C22"}, label |-> label, x |-> "v1", y |-> y, tol |-> R(tol)]
        one(j, k) ==
            << [op |-> "agent.set_position", h |-> "a1", v |-> pts[j]], [op |-> "agent.set_lin", h |-> "a1", v |-> Vels(j)[k]],
               [op |-> "agent.set_position", h |-> "a2", v |-> to(pts[j])], [op |-> "agent.set_lin", h |-> "a2", v |-> QRot(Quat[m], Vels(j)[k])],
               [op |-> "agent.set_position", h |-> "a4", v |-> pts[j]], [op |-> "agent.set_lin", h |-> "a4", v |-> VScale(Fac, Vels(j)[k])],
               [op |-> "mod.vel", a |-> "a1", e |-> "E1", reg |-> "v1"], [op |-> "mod.vel", a |-> "a2", e |-> "E2", reg |-> "v2"],
               [op |-> "mod.vel", a |-> "a1", e |-> "E3", reg |-> "v3"], [op |-> "mod.vel", a |-> "a4", e |-> "E4", reg |-> "v4"] >>
            \o (IF rs[j][k].ok
                THEN << [q |-> Quat[m]] @@ rel("rot", "modulation follows a rigid motion", "v2", "1e-5"),
                        [rel("same", "names and order do not matter to modulation", "v3", "1e-6") EXCEPT !.props = {"C20", "C22"}],
                        [s |-> Fac] @@ rel("scaled", "scaling all velocities scales the result", "v4", "1e-6") >>
                ELSE <<>>)
            \o << [op |-> "q.dist_agent", h |-> "e1", a |-> "a1", reg |-> "v1"], [op |-> "q.dist_agent", h |-> "f1", a |-> "a2", reg |-> "v2"],
                  rel("samex", "distances follow a rigid motion", "v2", "1e-8"),
                  [op |-> "q.repv", h |-> "e1", a |-> "a1", reg |-> "v1"], [op |-> "q.repv", h |-> "f1", a |-> "a2", reg |-> "v2"],
                  [q |-> Quat[m]] @@ rel("rot", "repulsion follows a rigid motion", "v2", "1e-7") >>
        n == Len(obs)
    IN  BuildIn([j \in DOMAIN obs |-> Turned(obs[j], m, Away)], "f", "E2")
        \o BuildIn([j \in DOMAIN obs |-> obs[n + 1 - j]], "g", "E3")
        \o BuildIn([j \in DOMAIN obs |-> [obs[j] EXCEPT !.lin = VScale(Fac, @), !.ang = VScale(Fac, @)]], "h", "E4")
        \o << [op |-> "agent.new", h |-> "a2", kind |-> "def"], [op |-> "agent.new", h |-> "a4", kind |-> "def"] >>
        \o Flat([j \in DOMAIN Ways |-> one(j, 1 + (j % 4))])
Leaf(l) == /\ g = 0 /\ g' = l /\ UNCHANGED <<sc, obs>>
           /\ at' = Points(obs[1], l)
           /\ res' = Tab([j \in DOMAIN Ways |-> Tab([k \in 1..4 |-> L(obs, at'[j], Vels(j)[k])])])
           /\ op' = <<[op |-> "reset", nohull |-> TRUE]>> \o BuildIn(obs, "e", "E1") \o <<[op |-> "agent.new", h |-> "a1", kind |-> "def"]>>
                    \o (IF Pairs THEN Compare(Pick(l), at', res') ELSE Ask(at'))
Next == \E l \in Levels : Leaf(l)
Spec == Init /\ [][Next]_vars
Written == Emit("SEG", op')
view == <<sc, g>>
-----------------------------------------------------------------------------
(* theorems                                                                 *)
Each(P(_, _, _)) == g # 0 => \A j \in DOMAIN Ways : \A k \in 1..4 : P(at[j], Vels(j)[k], res[j][k])
Close(a, b) == VNear(a, b, R("1e-7"))
\* the level value is the one asked for, and the gradient is its derivative
OnLevel == g # 0 => LET o == obs[1] IN \A j \in DOMAIN Ways : Near(Gamma(o, at[j], N0), Lev[g], R("1e-8"))
Derivative == g # 0 => LET o == obs[1]
                           h == R("1e-5")
                           ok(x, a) == LET up == Gamma(o, VAdd(x, VScale(h, QRot(o.ori, a))), N0)
                                           dn == Gamma(o, VSub(x, VScale(h, QRot(o.ori, a))), N0)
                                       IN  Near(RDiv(RSub(up, dn), RMul(Two, h)), Dot(Gradient(o, x, N0), a), R("1e-4"))
                       IN  \A j \in DOMAIN Ways : \A a \in {EX, EY, EZ} : ok(at[j], a)
\* no penetration: on the surface of one obstacle only, the velocity relative to it has no component into it
NoPenetration ==
    Each(LAMBDA x, v, l :
         LET d == D(obs, x)
             touched == {j \in DOMAIN obs : RLe(d[j], R("1.0000000001"))}
         IN  (l.ok /\ ~WeightsUnclear(d, One) /\ touched = {1}) =>
                 LET rel == VSub(l.v, PointVelocity(obs[1], x))
                 IN  RLe(RAbs(Dot(Nrm(obs, x)[1], rel)), R("1e-6")))
\* covariance under two rotations that generate the rotations of the cube, with a shift
Covariant ==
    Each(LAMBDA x, v, l : \A m \in {Yaw90, Roll90} :
         LET t == <<R("3"), R("-2"), One>>
             k == L([j \in DOMAIN obs |-> Turned(obs[j], m, t)], VAdd(t, QRot(Quat[m], x)), QRot(Quat[m], v))
         IN  l.ok /\ k.ok => Close(k.v, QRot(Quat[m], l.v)))
\* order of the obstacles
Permuted ==
    Each(LAMBDA x, v, l :
         LET n == Len(obs)  k == L([j \in 1..n |-> obs[n + 1 - j]], x, v)
         IN  n > 1 /\ l.ok => Close(k.v, l.v))
\* twice as fast a world answers twice as fast
Scaled ==
    Each(LAMBDA x, v, l :
         LET k == L([j \in DOMAIN obs |-> [obs[j] EXCEPT !.lin = VScale(Two, @), !.ang = VScale(Two, @)]], x, VScale(Two, v))
         IN  l.ok => Close(k.v, VScale(Two, l.v)))
\* at most twice the relative speed, and what is far away hardly matters
Bounded ==
    Each(LAMBDA x, v, l :
         LET d == D(obs, x)  rel == VSub(v, l.motion)
             cos == [j \in DOMAIN obs |-> RAbs(Dot(Nrm(obs, x)[j], Unit(VSub(x, obs[j].ref))))]
             far == \A j \in DOMAIN obs : RGe(d[j], R("19"))
         IN  l.ok => /\ (\A j \in DOMAIN obs : cos[j] = One) => RLe(Norm(VSub(l.v, l.motion)), RMul(R("2.0000001"), Norm(rel)))
                     /\ (far /\ \A j \in DOMAIN obs : RGe(cos[j], Half)) => RLe(Norm(VSub(l.v, v)), RMul(Half, RAdd(Norm(v), Norm(l.motion)))))
\* inside the damping distance a uniform drift of everything is just added
Galilean ==
    Each(LAMBDA x, v, l :
         LET u == <<R("0.3"), R("0.1"), R("-0.2")>>
             d == D(obs, x)
             k == L([j \in DOMAIN obs |-> [obs[j] EXCEPT !.lin = VAdd(@, u)]], x, VAdd(v, u))
         IN  Len(obs) = 1 /\ RLe(d[1], One) /\ l.ok /\ k.ok => VNear(k.v, VAdd(l.v, u), R("1e-6")))
=============================================================================
