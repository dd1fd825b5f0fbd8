------------------------------ MODULE AggModel -----------------------------
(* Aggregation of a list of obstacles: every placement of N obstacles on a  *)
(* grid whose neighbours overlap, merged as the library does.               *)
EXTENDS DOA
CONSTANTS N, W, H
VARIABLES at, op
view == at
Hn(i) == <<"e1", "e2", "e3", "e4", "e5", "e6">>[i]
Nm(i) == <<"kiwi", "date", "plum", "acai", "lime", "fig">>[i]
Cells == 0..(W * H - 1)
Pos(c) == <<RMul(R("1.6"), RInt(c % W)), RMul(R("1.6"), RInt(c \div W)), Zero>>
Rec(i, c) == [k |-> "obs", type |-> "Ellipsoid", name |-> Nm(i), pos |-> Pos(c), ori |-> QId, lin |-> V0, ang |-> V0,
              ref |-> Pos(c), marg |-> Three(Zero), axis |-> Three(One), curv |-> Three(One)]
Near4(c, d) == LET dx == (c % W) - (d % W)  dy == (c \div W) - (d \div W) IN dx * dx + dy * dy <= 1
ASSUME \A c, d \in Cells : Overlap3Rec(Rec(1, c), Rec(2, d)) = (IF Near4(c, d) THEN "yes" ELSE "no")
Touch(i, j) == Near4(at[i], at[j])
RECURSIVE Merge(_, _)
Merge(i, gs) == IF i > N THEN gs
                ELSE LET hit == {g \in gs : \E m \in g : Touch(i, m)} IN Merge(i + 1, (gs \ hit) \cup {{i} \cup UNION hit})
Groups == Merge(1, {})
RECURSIVE Components(_)
Components(left) ==
    IF left = {} THEN {}
    ELSE LET z == CHOOSE z \in left : TRUE
             g == Reach({z}, {p \in left \X left : p[1] < p[2] /\ Touch(p[1], p[2])})
         IN  {g} \cup Components(left \ g)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Init == /\ at = [i \in 1..N |-> 0] /\ op = <<>>
        /\ Emit("I", <<at, <<[op |-> "reset", id |-> "AggModel", nohull |-> TRUE]>>
                 \o [i \in 1..N |-> [op |-> "ell.new", h |-> Hn(i), kind |-> "xyz", name |-> Nm(i), v |-> Pos(0)]]>>)
Move(i, c) ==
    /\ at' = [at EXCEPT ![i] = c]
    /\ op' = << [op |-> "o.set_position", h |-> Hn(i), v |-> Pos(c)],
                [op |-> "aggr", l |-> [j \in 1..N |-> Hn(j)], reg |-> "g"],
                [op |-> "expect", kind |-> "groups", reg |-> "g", props |-> <<"C03">>, groups |-> Seqn({Seqn({Hn(j) : j \in g}) : g \in Groups'})] >>
Next == \E i \in 1..N, c \in Cells : c # at[i] /\ Move(i, c)
Spec == Init /\ [][Next]_<<at, op>>
Written == Emit("T", <<view, op', view'>>)
OrderFree == Groups = Components(1..N)
Declared == GroupingOK([st |-> [h \in {Hn(i) : i \in 1..N} |-> Rec(CHOOSE i \in 1..N : Hn(i) = h, at[CHOOSE i \in 1..N : Hn(i) = h])]],
                       {Hn(i) : i \in 1..N}, {{Hn(i) : i \in g} : g \in Groups})
=============================================================================
