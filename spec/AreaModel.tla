----------------------------- MODULE AreaModel -----------------------------
(* Surface areas on a grid of half-axes, margins and poses.                 *)
EXTENDS DOA
CONSTANTS Axes, Margins, Poses
VARIABLES x, m, p, w
vars == <<x, m, p, w>>
Len3(s) == <<R(s[1]), R(s[2]), R(s[3])>>
M == Three(R(m))
Inc(l) == VAdd(l, M)
PoseAt == << [p |-> V0, q |-> QId], [p |-> <<R("3"), R("-8"), R("40")>>, q |-> <<R("0.6"), Zero, Zero, R("0.8")>>], [p |-> <<R("1e4"), Zero, One>>, q |-> <<R("0.5"), R("-0.5"), R("0.5"), R("0.5")>>] >>
Ask(l) == << [op |-> "o.set_axis", h |-> "e1", v |-> l], [op |-> "q.area", h |-> "e1"], [op |-> "q.area", h |-> "e1", sm |-> FALSE], [op |-> "q.area", h |-> "e1", sm |-> TRUE] >>
Script == << [op |-> "reset"], [op |-> "ell.new", h |-> "e1", kind |-> "name", name |-> "oak", m |-> R(m)],
             [op |-> "o.set_position", h |-> "e1", v |-> PoseAt[p].p], [op |-> "o.set_orientation", h |-> "e1", q |-> PoseAt[p].q] >>
          \o Ask(Len3(x)) \o Ask(<<Len3(x)[3], Len3(x)[1], Len3(x)[2]>>) \o Ask(<<Len3(x)[2], Len3(x)[1], Len3(x)[3]>>)
          \o Ask(VScale(R("2.5"), Len3(x))) \o << [op |-> "q.print", h |-> "e1"] >>
Init == /\ x \in Axes \X Axes \X Axes /\ m \in Margins /\ p \in Poses
        /\ w = Area(Inc(Len3(x)))
        /\ Emit("SEG", Script)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
L == Inc(Len3(x))
Most == RMax(L[1], RMax(L[2], L[3]))
Least == RMin(L[1], RMin(L[2], L[3]))
Mid == RSub(RSub(RAdd(L[1], RAdd(L[2], L[3])), Most), Least)
Rel(a, b, t) == RLe(RAbs(RSub(a, b)), RMul(R(t), b))
Ball(r) == RMul(RMul(RInt(4), Pi), Sq(r))
\* between the balls inside and around, and exact for balls
Between == RLe(RMul(R("0.999"), Ball(Least)), w) /\ RLe(w, RMul(R("1.001"), Ball(Most)))
Round == L[1] = L[2] /\ L[2] = L[3] => Rel(w, Ball(L[1]), "1e-3")
Ecc(a, b) == RSqrt(RSub(One, RDiv(Sq(a), Sq(b))))              \* a < b
\* neither the order of the axes nor the unit of length matters
Ordered == \A s \in {<<2, 1, 3>>, <<3, 2, 1>>, <<2, 3, 1>>} : Rel(Area(<<L[s[1]], L[s[2]], L[s[3]]>>), w, "1e-3")
Scales == Rel(Area(VScale(R("2.5"), L)), RMul(R("6.25"), w), "1e-6")
\* more than twice its shadow along the shortest axis; bodies of revolution by their closed formulas; grows with every axis
Shadow == RGe(w, RMul(R("0.999"), RMul(Two, RMul(Pi, RMul(Most, Mid)))))
Prolate == RLt(Mid, RMul(R("0.99"), Most)) /\ REq(Least, Mid) =>
    LET e == Ecc(Least, Most) IN Rel(w, RMul(RMul(Two, Pi), RAdd(Sq(Least), RMul(RMul(Least, Most), RDiv(RAtan2(e, RSqrt(RSub(One, Sq(e)))), e)))), "2e-3")
Oblate == RGt(Mid, RMul(R("1.01"), Least)) /\ REq(Most, Mid) =>
    LET e == Ecc(Least, Most)  th == RMul(Half, RLog(RDiv(RAdd(One, e), RSub(One, e))))
    IN  Rel(w, RMul(RMul(Two, Pi), RAdd(Sq(Most), RMul(RDiv(Sq(Least), e), th))), "2e-3")
Grows == \A j \in 1..3 : RGt(Area([L EXCEPT ![j] = RMul(@, R("1.2"))]), w)
=============================================================================
