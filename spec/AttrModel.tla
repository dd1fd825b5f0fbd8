------------------------------ MODULE AttrModel ----------------------------
(* Attributes of obstacles: every setter against every combination of       *)
(* attribute values, next to a copy that must not follow.                   *)
EXTENDS DOA
CONSTANTS Kind, Fields     \* kind of obstacle; fields that vary
VARIABLES x, op            \* field -> 0 or 1
view == x
Val == [pos |-> << <<Zero, Zero, Zero>>, <<R("1.5"), R("-2"), R("0.25")>> >>,
        ori |-> << QId, <<R("0.6"), Zero, Zero, R("0.8")>> >>,
        lin |-> << V0, <<R("0.5"), R("0.25"), R("-1")>> >>,
        ang |-> << V0, <<R("0.125"), R("-3"), R("2")>> >>,
        ref |-> << V0, <<R("1"), R("-1.75"), R("0.5")>> >>,
        axis |-> << Three(One), <<R("2"), R("0.5"), R("3")>> >>,
        curv |-> << Three(One), <<R("2"), R("3"), R("1")>> >>,
        name |-> << "first", "" >>]
Set(h, f, v) ==
    CASE f = "pos" -> [op |-> IF x.lin = 0 THEN "o.set_position" ELSE "o.set_position3", h |-> h, v |-> Val.pos[v]]
      [] f = "ori" -> [op |-> "o.set_orientation", h |-> h, q |-> IF x.lin = 0 THEN Val.ori[v] ELSE [i \in 1..4 |-> RMul(R("-4"), Val.ori[v][i])]]
      [] f = "name" -> [op |-> "o.set_name", h |-> h, name |-> Val.name[v]]
      [] OTHER -> [op |-> SCat("o.set_", f), h |-> h, v |-> Val[f][v]]
AllFields == {"pos", "ori", "lin", "ang", "ref", "axis", "curv", "name"}
Make(h) == IF Kind = "ell" THEN [op |-> "ell.new", h |-> h, kind |-> "name", name |-> "first"]
           ELSE [op |-> "obs.new", h |-> h, kind |-> "name", name |-> "first"]
Is(h, y) == [op |-> "expect", kind |-> "attr", h |-> h, props |-> <<"C06">>,
             want |-> [pos |-> Val.pos[y.pos + 1], ori |-> Val.ori[y.ori + 1], lin |-> Val.lin[y.lin + 1], ang |-> Val.ang[y.ang + 1],
                       ref |-> Val.ref[y.ref + 1], marg |-> Three(Zero), name |-> Val.name[y.name + 1]]
                     @@ IF Kind = "ell" THEN [axis |-> Val.axis[y.axis + 1], curv |-> Val.curv[y.curv + 1]] ELSE <<>>]
Zeros == [f \in AllFields |-> 0]
Init == /\ x = Zeros /\ op = <<>>
        /\ Emit("I", <<x, <<[op |-> "reset", id |-> "AttrModel"], Make("o1"), Make("o2"),
                           [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> Val.pos[2], q |-> Val.ori[2], lin |-> Val.lin[2], ang |-> Val.ang[2]]>> >>)
To(y, ops) == x' = y /\ op' = ops \o <<Is("o1", y), Is("o2", Zeros)>>
Toggle(f) == To([x EXCEPT ![f] = 1 - @], <<Set("o1", f, 2 - x[f])>>)
Pose == To([x EXCEPT !.pos = 1, !.ori = 1], <<[op |-> "pose.new", h |-> "P1", kind |-> "pq", v |-> Val.pos[2], q |-> Val.ori[2]], [op |-> "o.set_pose", h |-> "o1", p |-> "P1"],
                                               [op |-> "pose.set_position", h |-> "P1", v |-> V0]>>)
\* a copy follows nothing
Copy == /\ Kind = "ell"
        /\ x' = x
        /\ op' = <<[op |-> "ell.new", h |-> "o3", kind |-> "copy", src |-> "o1"], Is("o3", x), Set("o3", "pos", 2 - x.pos), Set("o3", "axis", 2 - x.axis), Is("o1", x),
                   [op |-> "q.print", h |-> "o1"], [op |-> "q.print", h |-> "o3"]>>
Next == (\E f \in Fields : Toggle(f)) \/ Pose \/ Copy
Spec == Init /\ [][Next]_<<x, op>>
Written == Emit("T", <<view, op', view'>>)
\* DOA says the same about a setter as this model
Rec(y) == [k |-> "obs", type |-> "Ellipsoid", name |-> Val.name[y.name + 1], pos |-> Val.pos[y.pos + 1], ori |-> Val.ori[y.ori + 1], lin |-> Val.lin[y.lin + 1],
           ang |-> Val.ang[y.ang + 1], ref |-> Val.ref[y.ref + 1], marg |-> Three(Zero), axis |-> Val.axis[y.axis + 1], curv |-> Val.curv[y.curv + 1]]
Abs(y) == [st |-> [o1 |-> Rec(y)]]
Agrees == \A f \in Fields : f # "ori" =>
            LET s == Set("o1", f, 2 - x[f]) IN Post(Abs(x), [op |-> s.op, a |-> s]).o1 = Rec([x EXCEPT ![f] = 1 - @])
=============================================================================
