----------------------------- MODULE DrawModel -----------------------------
(* One obstacle drawn: shapes, turns, margins, names and planes.  The right *)
(* drawing passes the judgement and every wrong one of a catalogue fails;   *)
(* the same obstacles are drawn by the library.                             *)
EXTENDS Canvas
CONSTANTS Shapes, Turns, Margins, Refs, Names, Colors
VARIABLES sc, o, calls, op
vars == <<sc, o, calls, op>>
Axis == << <<One, One, One>>, <<R("1.6"), R("0.7"), R("0.4")>>, <<R("0.3"), R("1.1"), R("2")>>, <<R("2.5"), R("0.25"), R("1e-2")>> >>
Marg == << V0, Three(R("0.25")), <<R("0.1"), R("0.4"), R("0.3")>> >>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == LET h == RMul(Half, Deg(n)) IN <<RCos(h), Zero, Zero, RSin(h)>>
Turn(n) == IF n = 0 THEN QId ELSE IF n > 360 THEN QMul(Yaw(n - 360), <<R("0.8"), R("0.6"), Zero, Zero>>) ELSE Yaw(n)
Home == <<R("-1.3"), R("2.1"), R("0.7")>>
RefAt == << V0, <<R("0.2"), R("-0.15"), R("0.4")>> >>
Obst(s) == [k |-> "obs", type |-> "Ellipsoid", name |-> s[5], pos |-> Home, ori |-> Turn(s[2]), lin |-> V0, ang |-> V0, ref |-> VAdd(Home, RefAt[s[4]]),
            marg |-> Marg[s[3]], axis |-> Axis[s[1]], curv |-> Three(One)]
Plane(s) == s[7]
New(h, x) == << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> x.pos, q |-> x.ori, lin |-> V0, ang |-> V0],
                [op |-> "ell.new", h |-> h, kind |-> "sref", name |-> x.name, s |-> "S1", ref |-> x.ref, m3 |-> x.marg], [op |-> "o.set_axis", h |-> h, v |-> x.axis] >>
Draw(h, s) == [op |-> "draw", h |-> h, color |-> s[6], axis |-> Plane(s)]
\* the obstacle, then as a member of an aggregate with a neighbour
Script(s) == LET x == Obst(s)
                 y == [x EXCEPT !.pos = VAdd(@, <<R("0.9"), R("0.3"), Zero>>), !.name = "fern", !.ori = QId, !.axis = Three(R("0.8")), !.ref = VAdd(x.pos, <<R("0.9"), R("0.3"), Zero>>)]
             IN  <<[op |-> "reset"]>> \o New("e1", x) \o <<Draw("e1", s)>>
                 \o IF s[2] > 360 THEN << [op |-> "o.set_orientation", h |-> "e1", q |-> QId], Draw("e1", s) >>
                    ELSE New("e2", y) \o << [op |-> "agg.new", h |-> "G1", mem |-> <<"e1", "e2">>], Draw("G1", s), Draw("e2", s) >>
Init == /\ sc \in Shapes \X Turns \X Margins \X Refs \X Names \X Colors \X {"xy", "xz"}
        /\ o = Obst(sc) /\ calls = Tab(IdealEllipsoid(o, sc[6], Plane(sc))) /\ op = Script(sc)
        /\ Emit("SEG", Script(sc))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
St == [e1 |-> o]
OK(c) == DrawOK(c, St, <<>>, "e1", sc[6], Plane(sc))
E(m) == PanelOutline(o, Plane(sc), m)
Solid(e) == [calls EXCEPT ![1] = Curve(e, SCat(sc[6], "-"))]
Dashed(e) == [calls EXCEPT ![2] = Curve(e, SCat(sc[6], "--"))]
Right == OK(calls)
\* any order, and more on the same canvas, is right as well
Free == /\ \A i, j \in 1..4 : OK(Swapped(calls, i, j))
        /\ OK(calls \o IdealEllipsoid([o EXCEPT !.pos = VAdd(@, EX)], "y", Plane(sc)))
Missing == \A j \in 1..4 : (j > 2 \/ Judged(o, Plane(sc))) => ~OK(Without(calls, j))
\* outlines of something else
Wrong == Judged(o, Plane(sc)) =>
    /\ \A m \in BOOLEAN : LET put(e) == IF m THEN Dashed(e) ELSE Solid(e) IN
         /\ ~OK(put([E(m) EXCEPT !.a = RMul(@, R("1.01"))]))
         /\ ~OK(put([E(m) EXCEPT !.b = RMul(@, R("0.99"))]))
         /\ ~OK(put([E(m) EXCEPT !.cx = RAdd(@, R("0.01"))]))
         /\ ~OK(put([E(m) EXCEPT !.cy = RSub(@, R("0.01"))]))
         /\ (RGt(RAbs(RSub(E(m).a, E(m).b)), R("0.01")) => ~OK(put([E(m) EXCEPT !.a = E(m).b, !.b = E(m).a])))
         /\ (RGt(RAbs(RMul(RMul(E(m).s, E(m).c), RSub(E(m).a, E(m).b))), R("0.01")) => ~OK(put([E(m) EXCEPT !.s = RNeg(@)])))
    /\ (sc[3] # 1 => ~OK(Solid(E(TRUE))) /\ ~OK(Dashed(E(FALSE))))
\* part of a curve, or going around twice
Partial == Judged(o, Plane(sc)) =>
    /\ \A j \in 1..2 : LET c == calls[j]  n == Len(c.args[1])
                           part(a, b) == [calls EXCEPT ![j] = Call(SubSeq(c.args[1], a, b), SubSeq(c.args[2], a, b), c.args[3])]
                       IN  /\ ~OK(part(1, n - 1)) /\ ~OK(part(2, n)) /\ ~OK(part(1, n \div 2))
                           /\ ~OK([calls EXCEPT ![j] = Call(c.args[1] \o c.args[1], c.args[2] \o c.args[2], c.args[3])])
                           /\ ~OK([calls EXCEPT ![j] = Call(c.args[2], c.args[1], c.args[3])]) \/ sc[1] = 1
                           /\ ~OK([calls EXCEPT ![j] = Call(c.args[1], c.args[2], "w-")])
\* marks elsewhere
Marks == /\ \A d \in {<<R("0.01"), Zero>>, <<Zero, R("0.01")>>} :
              LET c == calls[4].args IN ~OK([calls EXCEPT ![4] = Dot1(RAdd(c[1][1], d[1]), RAdd(c[2][1], d[2]), c[3])])
         /\ (sc[5] # "" => LET c == calls[3].args IN ~OK([calls EXCEPT ![3].args[3] = "other"]) /\ ~OK([calls EXCEPT ![3].args[2] = RAdd(@, R("0.01"))]))
=============================================================================
