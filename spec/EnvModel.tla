------------------------------ MODULE EnvModel -----------------------------
(* Environments explored exhaustively: obstacles on a grid of cells, their  *)
(* registration under names, renaming, moving, the aggregated flag, updates *)
(* and copies.  TLC checks the laws below on every reachable state and      *)
(* writes every transition out; the transitions are replayed in the library *)
(* (gen/models.py) and the replay is checked by TraceDOA.                   *)
EXTENDS DOA
CONSTANTS NObs,          \* obstacles e1 .. eN
          Movable,       \* those that move
          Envs,          \* environments
          Renames,       \* obstacles that may be renamed
          Start,         \* whether environments begin aggregated
          Toggled,       \* whether that changes
          Twice          \* whether a renamed obstacle may be registered again under its new name
VARIABLES cell, name, reg, agg, list, op
view == <<cell, name, reg, agg, list>>
vars == <<cell, name, reg, agg, list, op>>
All == <<"e1", "e2", "e3", "e4">>
Obs == {All[n] : n \in 1..NObs}
First == [e1 |-> "cow", e2 |-> "bee", e3 |-> "elk", e4 |-> "ape"]
Other == [e1 |-> "bee", e2 |-> "fox", e3 |-> "cow", e4 |-> "dog"]
Cells == [e1 |-> {"a"}, e2 |-> {"b", "y"}, e3 |-> {"c", "z"}, e4 |-> {"z", "b"}]
Home  == [e1 |-> "a", e2 |-> "b", e3 |-> "z", e4 |-> "z"]
At    == [a |-> <<Zero, Zero, Zero>>, b |-> <<R("1.6"), R("0.3"), Zero>>, c |-> <<R("3.1"), R("-0.2"), Zero>>,
          y |-> <<Zero, R("9"), Zero>>, z |-> <<R("-9"), R("0.5"), Zero>>]
Axis  == [e1 |-> <<One, R("0.9"), One>>, e2 |-> <<R("1.1"), One, One>>, e3 |-> <<One, One, R("0.5")>>, e4 |-> <<R("1.2"), R("0.8"), One>>]
-----------------------------------------------------------------------------
(* the DOA state this state stands for                                      *)
Rec(h, c, n) == [k |-> "obs", type |-> "Ellipsoid", name |-> n, pos |-> At[c], ori |-> QId, lin |-> V0, ang |-> V0,
                 ref |-> At[c], marg |-> Three(Zero), axis |-> Axis[h], curv |-> Three(One)]
Pairs == {<<p, q>> \in (Obs \X {"a", "b", "c", "y", "z"}) \X (Obs \X {"a", "b", "c", "y", "z"}) :
             p[2] \in Cells[p[1]] /\ q[2] \in Cells[q[1]] /\ p[1] # q[1]}
Table == [p \in Pairs |-> Overlap3Rec(Rec(p[1][1], p[1][2], ""), Rec(p[2][1], p[2][2], "")) = "yes"]
ASSUME \A p \in Pairs : Overlap3Rec(Rec(p[1][1], p[1][2], ""), Rec(p[2][1], p[2][2], "")) \in {"yes", "no"}
Touch(a, b) == a # b /\ Table[<<<<a, cell[a]>>, <<b, cell[b]>>>>]
\* the grouping as the library computes it: obstacles in the order of their registered names, each
\* merging the groups it overlaps
RECURSIVE Merge(_, _)
Merge(seq, gs) ==
    IF seq = <<>> THEN gs
    ELSE LET x == Head(seq)
             hit == {g \in gs : \E m \in g : Touch(x, m)}
         IN  Merge(Tail(seq), (gs \ hit) \cup {{x} \cup UNION hit})
Ordered(e) == LET q == Sorted(Seqn(DOMAIN reg[e])) IN [i \in DOMAIN q |-> reg[e][q[i]]]
Result(e) == IF agg[e] THEN Merge(Ordered(e), {}) ELSE {{h} : h \in {reg[e][n] : n \in DOMAIN reg[e]}}
AggName(g) == LET q == Seqn(g)  ns == Sorted([i \in DOMAIN q |-> name[q[i]]])
              IN  SCat("aggregate", Concat([i \in DOMAIN ns |-> SCat("_", ns[i])]))
Entry(g) == [m |-> g, n |-> IF Cardinality(g) > 1 THEN AggName(g) ELSE ""]
-----------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Setup == Flat([i \in 1..NObs |-> << [op |-> "ell.new", h |-> All[i], kind |-> "xyz", name |-> First[All[i]], v |-> At[Home[All[i]]]],
                                       [op |-> "o.set_axis", h |-> All[i], v |-> Axis[All[i]]] >>])
         \o [i \in 1..Cardinality(Envs) |-> [op |-> "env.new", h |-> Seqn(Envs)[i]]]
         \o (IF Start THEN <<>> ELSE [i \in 1..Cardinality(Envs) |-> [op |-> "env.set_agg", h |-> Seqn(Envs)[i], v |-> FALSE]])
AggNames == {SCat("aggregate", Concat([i \in DOMAIN q |-> SCat("_", q[i])])) :
               q \in {Sorted(Seqn({First[h] : h \in s})) : s \in {x \in SUBSET Obs : Cardinality(x) > 1}}}
Reset == [op |-> "reset", id |-> "EnvModel", names |-> Seqn({First[h] : h \in Obs} \cup {Other[h] : h \in Renames} \cup AggNames)]
Init == /\ cell = [h \in Obs |-> Home[h]]
        /\ name = [h \in Obs |-> First[h]]
        /\ reg = [e \in Envs |-> <<>>]
        /\ agg = [e \in Envs |-> Start]
        /\ list = [e \in Envs |-> {}]
        /\ op = <<>>
        /\ Emit("I", <<view, <<Reset>> \o Setup>>)
Expect(e, l) == [op |-> "expect", kind |-> "groups", e |-> e, groups |-> Seqn({Seqn(x.m) : x \in l}), props |-> <<"C02", "C03", "C05">>]
Outcome(x)   == [op |-> "expect", kind |-> "outcome", x |-> x, props |-> <<"C01">>]
Add(e, h) ==
    LET dup == name[h] \in DOMAIN reg[e]
    IN  /\ Twice \/ h \notin {reg[e][n] : n \in DOMAIN reg[e]} \/ dup
        /\ reg' = IF dup THEN reg ELSE [reg EXCEPT ![e] = (name[h] :> h) @@ @]
        /\ op' = <<[op |-> "env.add", h |-> e, o |-> h], Outcome(IF dup THEN "already" ELSE "")>>
        /\ UNCHANGED <<cell, name, agg, list>>
Remove(e, n) ==
    LET there == n \in DOMAIN reg[e]
    IN  /\ reg' = [reg EXCEPT ![e] = [x \in DOMAIN @ \ {n} |-> @[x]]]
        /\ op' = <<[op |-> "env.remove", h |-> e, name |-> n], Outcome(IF there THEN "" ELSE "missing")>>
        /\ UNCHANGED <<cell, name, agg, list>>
SetAgg(e) ==
    /\ Toggled
    /\ agg' = [agg EXCEPT ![e] = ~@]
    /\ op' = <<[op |-> "env.set_agg", h |-> e, v |-> agg'[e]]>>
    /\ UNCHANGED <<cell, name, reg, list>>
\* what an obstacle registered under two names counts for in an update is left open
Once(e) == \A n1, n2 \in DOMAIN reg[e] : reg[e][n1] = reg[e][n2] => n1 = n2
Update(e) ==
    /\ Once(e)
    /\ list' = [list EXCEPT ![e] = {Entry(g) : g \in Result(e)}]
    /\ op' = <<[op |-> "env.update", h |-> e], Expect(e, list'[e])>>
    /\ UNCHANGED <<cell, name, reg, agg>>
Move(h, c) ==
    /\ c # cell[h]
    /\ cell' = [cell EXCEPT ![h] = c]
    /\ op' = <<[op |-> "o.set_position", h |-> h, v |-> At[c]]>>
    /\ UNCHANGED <<name, reg, agg, list>>
Rename(h) ==
    /\ name' = [name EXCEPT ![h] = IF @ = First[h] THEN Other[h] ELSE First[h]]
    /\ op' = <<[op |-> "o.set_name", h |-> h, name |-> name'[h]]>>
    /\ UNCHANGED <<cell, reg, agg, list>>
Copy(e, f) ==
    /\ e # f
    /\ reg' = [reg EXCEPT ![f] = reg[e]]
    /\ agg' = [agg EXCEPT ![f] = agg[e]]
    /\ list' = [list EXCEPT ![f] = list[e]]
    /\ op' = <<[op |-> "env.copy", h |-> f, src |-> e], Expect(f, list'[f])>>
    /\ UNCHANGED <<cell, name>>
Next == \/ \E e \in Envs, h \in Obs : Add(e, h)
        \/ \E e \in Envs : \E n \in DOMAIN reg[e] \cup {"bee", "aggregate_bee_cow"} : Remove(e, n)
        \/ \E e \in Envs : SetAgg(e) \/ Update(e)
        \/ \E h \in Movable : \E c \in Cells[h] : Move(h, c)
        \/ \E h \in Renames : Rename(h)
        \/ \E e, f \in Envs : Copy(e, f)
Spec == Init /\ [][Next]_vars
Written == Emit("T", <<view, op', view'>>)
-----------------------------------------------------------------------------
(* laws                                                                     *)
Abs == [st |-> [h \in Obs |-> Rec(h, cell[h], name[h])], reg |-> reg]
\* names are registered once, and registration is what adding and removing make it (DOA)
Registry == Twice \/ \A e \in Envs : Once(e)
\* an update agrees with the declarative meaning of a grouping, whatever order it works in
Grouping == \A e \in Envs : agg[e] => GroupingOK(Abs, Registered(Abs, e), Result(e))
\* connected components do not depend on names or on order
RECURSIVE Components(_)
Components(left) ==
    IF left = {} THEN {}
    ELSE LET x == CHOOSE x \in left : TRUE
             g == Reach({x}, {p \in Obs \X Obs : p[1] \in left /\ p[2] \in left /\ Touch(p[1], p[2])})
         IN  {g} \cup Components(left \ g)
OrderFree == \A e \in Envs : agg[e] => Result(e) = Components(Registered(Abs, e))
Partition == \A e \in Envs : /\ UNION Result(e) = Registered(Abs, e)
                             /\ \A g, k \in Result(e) : g = k \/ g \cap k = {}
\* what is published only changes by updates and copies, and only in the environment updated
Stable == [][ \A e \in Envs : list'[e] # list[e] => op'[1].op \in {"env.update", "env.copy"} /\ op'[1].h = e ]_vars
\* environments registered with the same obstacles publish the same
Follows == [][ \A e \in Envs : op'[1].op = "env.update" /\ op'[1].h = e => list'[e] = {Entry(g) : g \in Result(e)} ]_vars
=============================================================================
