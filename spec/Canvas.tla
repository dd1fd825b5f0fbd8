------------------------------- MODULE Canvas ------------------------------
(* Drawings as they should be: the sequences of plotting calls for one      *)
(* ellipsoid, one list of obstacles, an agent and a trajectory.             *)
EXTENDS Plots
Call(xs, ys, fmt) == [fn |-> "plot", args |-> <<xs, ys, fmt>>, kw |-> <<>>]
Dot1(x, y, fmt) == Call(<<x>>, <<y>>, fmt)
Points == 24
Curve(e, fmt) == LET at(j) == OutlineAt(e, RMul(RInt(j), RDiv(RMul(Two, Pi), RInt(Points))))
                 IN  Call(Tab([j \in 1..(Points + 1) |-> at(j - 1)[1]]), Tab([j \in 1..(Points + 1) |-> at(j - 1)[2]]), fmt)
IdealEllipsoid(o, color, axis) ==
    << Curve(PanelOutline(o, axis, FALSE), SCat(color, "-")), Curve(PanelOutline(o, axis, TRUE), SCat(color, "--")),
       IF o.name = "" THEN Dot1(o.pos[1], o.pos[Third(axis)], SCat(color, "o"))
       ELSE [fn |-> "text", args |-> <<o.pos[1], o.pos[Third(axis)], o.name>>, kw |-> <<>>],
       Dot1(o.ref[1], o.ref[Third(axis)], SCat(color, "x")) >>
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
IdealObstacles(st, l, axis) == Join([j \in DOMAIN l |-> IdealEllipsoid(st[l[j]], ColourOf(j), axis)])
IdealTrajectory(goal, hist, axis) ==
    << Dot1(goal[1], goal[Third(axis)], "rx"), Call([j \in DOMAIN hist |-> hist[j][1]], [j \in DOMAIN hist |-> hist[j][Third(axis)]], "k-") >>
IdealAgent(ag, axis, color) == << Dot1(ag.pos[1], ag.pos[Third(axis)], SCat(color, "o")) >>
-----------------------------------------------------------------------------
(* wrong drawings                                                           *)
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Twice(s, j) == SubSeq(s, 1, j) \o SubSeq(s, j, Len(s))
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
=============================================================================
