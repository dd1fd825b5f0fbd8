------------------------------ MODULE PoseModel ----------------------------
(* Composition, inversion and assignment of poses on an integer lattice.    *)
EXTENDS DOA, Lattice
CONSTANTS Bound, Turns       \* largest coordinate; turns: quarter turns about the vertical ("yaw") or all ("all")
VARIABLES a, op
view == a
G == [G1 |-> [m |-> Yaw90, t |-> <<1, 0, 0>>], G2 |-> [m |-> IF Turns = "all" THEN Roll90 ELSE MM(Yaw90, Yaw90), t |-> <<0, -1, 1>>],
      G3 |-> [m |-> I3, t |-> <<-1, 1, 0>>]]
Names == {"G1", "G2", "G3"}
Id == [m |-> I3, t |-> <<0, 0, 0>>]
New(h, x) == [op |-> "pose.new", h |-> h, kind |-> "pq", v |-> Real3(x.t), q |-> Quat[x.m]]
Is(h, x) == [op |-> "expect", kind |-> "pose", h |-> h, pos |-> Real3(x.t), ex |-> Real3(x.m[1]), ey |-> Real3(x.m[2]), props |-> <<"C09">>]
Small(x) == \A i \in 1..3 : x.t[i] \in -Bound..Bound
Init == /\ a = Id /\ op = <<>>
        /\ Emit("I", <<a, <<[op |-> "reset", id |-> "PoseModel"], [op |-> "pose.new", h |-> "P1", kind |-> "def"],
                           New("G1", G.G1), New("G2", G.G2), New("G3", G.G3)>> >>)
To(x, ops) == /\ Small(x) /\ a' = x /\ op' = ops \o <<Is("P1", x)>>
Compose(g) == To(PM(a, G[g]), <<[op |-> "pose.mulassign", h |-> "P1", s |-> g]>>)
Before(g)  == To(PM(G[g], a), <<[op |-> "pose.mul", h |-> "P1", s |-> g, t |-> "P1"]>>)
Invert     == To(PI(a), <<[op |-> "pose.inv", h |-> "P1", s |-> "P1"]>>)
Square     == To(PM(a, a), <<[op |-> "pose.mulassign", h |-> "P1", s |-> "P1"]>>)
Place(v)   == To([a EXCEPT !.t = v], <<[op |-> IF v[1] = 0 THEN "pose.set_position" ELSE "pose.set_position3", h |-> "P1", v |-> Real3(v)]>>)
Turn(m, k) == To([a EXCEPT !.m = m], <<[op |-> "pose.set_orientation", h |-> "P1", q |-> [i \in 1..4 |-> RMul(k, Quat[m][i])]]>>)
\* questions that leave the pose alone: inverse on both sides, associativity, application to a point
Laws(g, k) ==
    /\ a' = a
    /\ op' = << [op |-> "pose.inv", h |-> "P2", s |-> "P1"], Is("P2", PI(a)),
                [op |-> "pose.mul", h |-> "P3", s |-> "P2", t |-> "P1"], Is("P3", Id),
                [op |-> "pose.mul", h |-> "P3", s |-> "P1", t |-> "P2"], Is("P3", Id),
                [op |-> "pose.mul", h |-> "P4", s |-> "P1", t |-> g], [op |-> "pose.mul", h |-> "P5", s |-> "P4", t |-> k], Is("P5", PM(PM(a, G[g]), G[k])),
                [op |-> "pose.mul", h |-> "P4", s |-> g, t |-> k], [op |-> "pose.mul", h |-> "P5", s |-> "P1", t |-> "P4"], Is("P5", PM(PM(a, G[g]), G[k])),
                [op |-> "pose.apply", h |-> "P1", v |-> Real3(<<1, 2, 3>>)],
                Is("P1", a), Is(g, G[g]) >>
Next == \/ \E g \in Names : Compose(g) \/ Before(g)
        \/ Invert \/ Square
        \/ \E v \in {<<0, 0, 0>>, <<1, 0, -1>>} : Place(v)
        \/ \E m \in {I3, Yaw90, G.G2.m} : \E k \in {One, R("-2.5")} : Turn(m, k)
        \/ \E g, k \in Names : g # k /\ Laws(g, k)
Spec == Init /\ [][Next]_<<a, op>>
Written == Emit("T", <<view, op', view'>>)
-----------------------------------------------------------------------------
Rigid == a.m \in Rotations /\ QNear(QMul(QConj(Quat[a.m]), Quat[a.m]), QId, Tol)
Associative == \A g, k \in Names : PM(PM(a, G[g]), G[k]) = PM(a, PM(G[g], G[k]))
Inverse == PM(a, PI(a)) = Id /\ PM(PI(a), a) = Id
\* the real-valued composition of Geom means the same
Same(x, y) == VNear(x.p, y.p, Tol) /\ QNear(x.q, y.q, Tol)
Agrees == /\ \A g \in Names : Same(PMul(RealPose(a), RealPose(G[g])), RealPose(PM(a, G[g])))
          /\ Same(PInv(RealPose(a)), RealPose(PI(a)))
          /\ VNear(PApply(RealPose(a), Real3(<<1, 2, 3>>)), Real3(PV(a, <<1, 2, 3>>)), Tol)
=============================================================================
