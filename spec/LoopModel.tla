------------------------------ MODULE LoopModel ----------------------------
(* The controlled agent: commanded towards a goal, moved by the modulated   *)
(* velocity of the law in small steps, while obstacles move and turn.  TLC  *)
(* follows every run of a grid of scenes to its end.                        *)
EXTENDS DOA
CONSTANTS Shapes, Turns, Refs, Starts, Sides, Worlds
VARIABLES sc, ob, x, t, sound, op
vars == <<sc, ob, x, t, sound, op>>
Shape == << [axis |-> Three(One), marg |-> Three(Zero), curv |-> Three(One)],
            [axis |-> <<R("1.5"), R("0.6"), One>>, marg |-> <<R("0.1"), Zero, R("0.2")>>, curv |-> Three(One)],
            [axis |-> <<R("0.7"), R("1.6"), R("0.5")>>, marg |-> Three(R("0.1")), curv |-> Three(One)],
            [axis |-> <<One, R("1.3"), One>>, marg |-> Three(Zero), curv |-> Three(Two)] >>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == QYaw(RCos(Deg(n)), RSin(Deg(n)))
Roll(n) == LET h == RMul(Half, Deg(n)) IN <<RCos(h), RSin(h), Zero, Zero>>
Turn == <<QId, Yaw(35), QMul(Yaw(100), Roll(40)), QMul(Roll(70), Yaw(-50))>>
RefAt == << V0, <<R("0.3"), R("-0.25"), Zero>>, <<R("-0.2"), R("0.2"), R("0.2")>> >>
\* start directions and the directions the goal is moved aside to
Dir == << EX, <<RCos(Deg(50)), RSin(Deg(50)), Zero>>, VNeg(EY), <<R("0.6"), R("-0.48"), R("0.64")>>, <<R("-0.64"), Zero, R("0.768374908")>> >>
Side == << <<Zero, R("0.5"), Zero>>, <<R("0.4"), Zero, R("-0.5")>>, <<R("-0.7"), R("0.9"), R("0.1")>>, <<Zero, Zero, R("0.6")>> >>
World == << [n |-> 1, lin |-> V0, ang |-> V0],
            [n |-> 1, lin |-> <<R("0.1"), R("-0.05"), Zero>>, ang |-> V0],
            [n |-> 1, lin |-> V0, ang |-> <<Zero, Zero, R("0.1")>>],
            [n |-> 3, lin |-> V0, ang |-> V0] >>
Make(s, p, k, f, w) == [k |-> "obs", type |-> "Ellipsoid", name |-> "", pos |-> p, ori |-> Turn[k], lin |-> w.lin, ang |-> w.ang,
                        ref |-> VAdd(p, QRot(Turn[k], [i \in 1..3 |-> RMul(RefAt[f][i], Shape[s].axis[i])])),
                        marg |-> Shape[s].marg, axis |-> Shape[s].axis, curv |-> Shape[s].curv]
Obst(s) == LET w == World[s[6]]
               all == <<Make(s[1], V0, s[2], s[3], w), Make(1, <<R("-4"), R("5.5"), Zero>>, 1, 1, World[1]), Make(2, <<R("-3"), R("-6"), Half>>, 2, 1, World[1])>>
           IN  Tab([j \in 1..w.n |-> all[j]])
Start(s) == VScale(R("4.5"), Dir[s[4]])
Goal(s) == LET u == Dir[s[4]]  d == Side[s[5]] IN VAdd(VScale(R("-4.5"), u), VSub(d, VScale(Dot(d, u), u)))
\* how far the goal is off the straight line through the obstacle
Aside(s) == Norm(VAdd(Goal(s), Start(s)))
Margin == Zero
Last(s) == IF World[s[6]].n = 1 /\ ~(s[6] \in {2, 3}) THEN 360 ELSE 180
Dt(s) == IF s[6] \in {2, 3} THEN R("0.03") ELSE R("0.05")
D(obs, p) == Tab([j \in DOMAIN obs |-> Gamma(obs[j], p, Three(Margin))])
Nrm(obs, p) == Tab([j \in DOMAIN obs |-> QRot(obs[j].ori, Unit(Gradient(obs[j], p, Three(Margin))))])
Command(s, p) == LET v == VSub(Goal(s), p) IN IF RGt(Norm(v), One) THEN Unit(v) ELSE v
Answer == Law(x, Command(sc, x), ob, D(ob, x), Nrm(ob, x), One, Two)
\* an obstacle after a step
Drift(o, dt) ==
    LET w == VScale(dt, o.ang)  n == Norm(w)
        q == IF RGt(n, Zero) THEN LET h == RMul(Half, n)  u == VScale(RDiv(RSin(h), n), w) IN QUnit(QMul(<<RCos(h), u[1], u[2], u[3]>>, o.ori)) ELSE o.ori
        d == VScale(dt, o.lin)
    IN  [o EXCEPT !.pos = VAdd(@, d), !.ref = VAdd(@, d), !.ori = q]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Hn(j) == <<"e1", "e2", "e3">>[j]
Nm(j) == <<"gull", "wren", "crow">>[j]
Script(s) ==
    LET obs == Obst(s)
        run == [op |-> "loop", a |-> "a1", e |-> "E1", goal |-> Goal(s), gain |-> One, dt |-> Dt(s), vmax |-> One, n |-> Last(s),
                guard |-> [j \in DOMAIN obs |-> Hn(j)], tol |-> R("0.02")]
    IN  <<[op |-> "reset", nohull |-> TRUE]>>
        \o Flat([j \in DOMAIN obs |->
           << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> obs[j].pos, q |-> obs[j].ori, lin |-> obs[j].lin, ang |-> obs[j].ang],
              [op |-> "ell.new", h |-> Hn(j), kind |-> "sref", name |-> Nm(j), s |-> "S1", ref |-> obs[j].ref, m3 |-> obs[j].marg],
              [op |-> "o.set_axis", h |-> Hn(j), v |-> obs[j].axis], [op |-> "o.set_curv", h |-> Hn(j), v |-> obs[j].curv] >>])
        \o <<[op |-> "env.new", h |-> "E1", agg |-> FALSE]>> \o [j \in DOMAIN obs |-> [op |-> "env.add", h |-> "E1", o |-> Hn(j)]]
        \o << [op |-> "env.update", h |-> "E1"], [op |-> "agent.new", h |-> "a1", kind |-> "def"], [op |-> "agent.set_position", h |-> "a1", v |-> Start(s)],
              (IF Last(s) = 360 THEN run @@ [within |-> R("0.12")] ELSE IF s[6] \in {2, 3} THEN run @@ [move |-> <<"e1">>] ELSE run) >>
Init == /\ sc \in Shapes \X Turns \X Refs \X Starts \X Sides \X Worlds
        /\ RGe(Aside(sc), R("0.25"))
        /\ ob = Obst(sc) /\ x = Start(sc) /\ t = 0 /\ sound = TRUE /\ op = <<>>
        /\ \A j \in DOMAIN ob : RGe(D(ob, Goal(sc))[j], R("1.3"))
        /\ Emit("SEG", Script(sc))
\* a step; where the law is singular the run ends
Step == /\ t < Last(sc) /\ sound
        /\ sound' = Answer.ok
        /\ x' = IF Answer.ok THEN VAdd(x, VScale(Dt(sc), Answer.v)) ELSE x
        /\ ob' = Tab([j \in DOMAIN ob |-> IF j = 1 /\ sc[6] \in {2, 3} THEN Drift(ob[j], Dt(sc)) ELSE ob[j]])
        /\ t' = t + 1 /\ UNCHANGED <<sc, op>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
view == <<sc, t>>
-----------------------------------------------------------------------------
Outside == \A j \in DOMAIN ob : RGe(D(ob, x)[j], R("0.98"))
Singular == sound
Arrives == t = 360 => RLe(Norm(VSub(x, Goal(sc))), R("0.12"))
\* nothing carries the agent away: it stays within the start's distance of the goal, and a few obstacle lengths
Bounded == RLe(Norm(VSub(x, Goal(sc))), R("14"))
\* between two steps it moves no farther than the law allows
Gentle == [][RLe(Norm(VSub(x', x)), RMul(Dt(sc), R("4")))]_vars
=============================================================================
