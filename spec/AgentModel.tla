------------------------------ MODULE AgentModel ---------------------------
(* Two agents under setters, transforms, copies and assignment, with their  *)
(* envelopes.                                                               *)
EXTENDS DOA, Lattice
CONSTANTS Half1            \* TRUE: half turns only
VARIABLES x, y, op         \* agents a1 and a2: [m, t, lin, sm]
view == <<x, y>>
Step == IF Half1 THEN MM(Yaw90, Yaw90) ELSE Yaw90
Lins == << V0, <<R("2"), Zero, Zero>>, <<R("-1"), R("1"), R("0.5")>>, <<Zero, Zero, R("3")>> >>
Margins == << Zero, R("0.4") >>
T == [m |-> Step, t |-> <<0, 0, 0>>]
Start == [m |-> I3, t |-> <<1, 0, 0>>, lin |-> 1, sm |-> 1]
Env(z) == EnvelopeOf(Real3(z.t), Lins[z.lin], Margins[z.sm])
Is(h, z) == [op |-> "expect", kind |-> "attr", h |-> h, props |-> <<"C07", "C08">>,
             want |-> [pos |-> Real3(z.t), ori |-> Quat[z.m], lin |-> Lins[z.lin], ang |-> V0, sm |-> Margins[z.sm], env |-> Env(z)]]
Init == /\ x = Start /\ y = Start /\ op = <<>>
        /\ Emit("I", <<view, << [op |-> "reset", id |-> "AgentModel"],
                               [op |-> "pose.new", h |-> "T", kind |-> "pq", v |-> V0, q |-> Quat[Step]],
                               [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> EX, q |-> QId, lin |-> V0, ang |-> V0],
                               [op |-> "agent.new", h |-> "a1", kind |-> "state", s |-> "S1"], [op |-> "agent.new", h |-> "a2", kind |-> "def"],
                               [op |-> "agent.set_position", h |-> "a2", v |-> EX] >> >>)
To(u, v, ops) == x' = u /\ y' = v /\ op' = ops \o <<Is("a1", u), Is("a2", v)>>
Setters(h, z) == \* <<new value, operations>>
    { <<[z EXCEPT !.lin = l], <<[op |-> "agent.set_lin", h |-> h, v |-> Lins[l]]>> >> : l \in {k \in 1..(IF Half1 THEN 3 ELSE 4) : k # z.lin} }
    \cup { <<[z EXCEPT !.sm = 3 - @], <<[op |-> "agent.set_margin", h |-> h, m |-> Margins[3 - z.sm]]>> >> }
    \cup { <<[z EXCEPT !.t = INeg(z.t)], <<[op |-> "agent.set_position", h |-> h, v |-> Real3(INeg(z.t))]>> >> }
    \cup { <<[z EXCEPT !.m = MM(Step, @)], <<[op |-> "agent.set_orientation", h |-> h, q |-> Quat[MM(Step, z.m)]]>> >> }
    \cup { <<[z EXCEPT !.m = Step, !.t = <<1, 0, 0>>], <<[op |-> "pose.new", h |-> "P1", kind |-> "pq", v |-> EX, q |-> Quat[Step]], [op |-> "agent.set_pose", h |-> h, p |-> "P1"]>> >> }
Moved2(z) == LET p == PM(T, [m |-> z.m, t |-> z.t]) IN [z EXCEPT !.m = p.m, !.t = p.t]
Set1 == \E s \in Setters("a1", x) : To(s[1], y, s[2])
Set2 == \E s \in Setters("a2", y) : To(x, s[1], s[2])
Transform == To(Moved2(x), y, <<[op |-> "agent.transform", h |-> "a1", p |-> "T"]>>)
Transformed == To(x, Moved2(x), <<[op |-> "agent.transformed", h |-> "a2", src |-> "a1", p |-> "T"]>>)
Assign == To(x, x, <<[op |-> "agent.assign", h |-> "a2", src |-> "a1"]>>)
CopyNew == To(x, x, <<[op |-> "agent.drop", h |-> "a2"], [op |-> "agent.new", h |-> "a2", kind |-> "copy", src |-> "a1"]>>)
Self == To(x, y, <<[op |-> "agent.assign", h |-> "a1", src |-> "a1"]>>)
Next == Set1 \/ Set2 \/ Transform \/ Transformed \/ Assign \/ CopyNew \/ Self
Spec == Init /\ [][Next]_<<x, y, op>>
Written == Emit("T", <<view, op', view'>>)
-----------------------------------------------------------------------------
(* laws of the envelope                                                     *)
Covers(z) == \* the agent and the point it looks ahead to lie in the envelope, at the margin or more from its surface ahead
    LET e == IF Has(Env(z), "ori") THEN Env(z) ELSE Env(z) @@ [ori |-> QId]
        flat == REq(Lins[z.lin][3], Zero)
        p == Real3(z.t)
        q == VAdd(p, Unit(Lins[z.lin]))
    IN  flat => /\ RLe(Gamma(e, p, Three(Zero)), One)
                /\ RLe(Gamma(e, e.pos, Three(Zero)), Zero)
                /\ RLe(Gamma(e, q, Three(Zero)), One)
AtLeastDisc(z) == LET e == Env(z) IN \A i \in 1..3 : RGe(e.axis[i], EnvMargin(Margins[z.sm]))
Envelope == Covers(x) /\ Covers(y) /\ AtLeastDisc(x) /\ AtLeastDisc(y)
Abs(z) == AgentRec([p |-> Real3(z.t), q |-> Quat[z.m]], Lins[z.lin], V0, Margins[z.sm])
Same(r, q) == VNear(r.pos, q.pos, Tol) /\ QNear(r.ori, q.ori, Tol) /\ r.lin = q.lin /\ r.sm = q.sm /\ VNear(r.env.pos, q.env.pos, Tol) /\ r.env.axis = q.env.axis
\* DOA's transform is the lattice's
Agrees == Same(Moved(Abs(x), PMul(RealPose(T), AsPose(Abs(x)))), Abs(Moved2(x)))
=============================================================================
