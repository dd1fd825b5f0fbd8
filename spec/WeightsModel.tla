----------------------------- MODULE WeightsModel --------------------------
(* Weights of every short list of distances drawn from a grid.              *)
EXTENDS Modul
CONSTANTS MaxLen
VARIABLES d, crit, pow
Grid == << R("0.25"), R("1"), R("1.5"), R("2"), R("6") >>
Crits == {One, Half, R("2")}
Pows == {Two, One, R("3.5")}
Seg(s, c, p) == << [op |-> "reset"] >> \o
    << [op |-> "mod.weights", d |-> s, crit |-> c, pow |-> p] >>
Init == /\ d \in UNION {[1..n -> {Grid[i] : i \in 1..5}] : n \in 1..MaxLen}
        /\ crit \in Crits /\ pow \in Pows
        /\ Emit("SEG", Seg(d, crit, pow))
Next == UNCHANGED <<d, crit, pow>>
Spec == Init /\ [][Next]_<<d, crit, pow>>
W == Weights(d, crit, pow)
Distribution == (\A i \in DOMAIN d : RGe(W[i], Zero)) /\ Near(RSum(W), One, Tol)
Monotone == \A i, j \in DOMAIN d : RLe(d[i], d[j]) => RGe(W[i], RSub(W[j], Tol))
Equal == \A i, j \in DOMAIN d : d[i] = d[j] => Near(W[i], W[j], Tol)
Critical == LET near == {i \in DOMAIN d : RLe(d[i], crit)} IN near # {} => \A i \in DOMAIN d : (i \notin near => REq(W[i], Zero))
=============================================================================
