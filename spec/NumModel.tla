------------------------------ MODULE NumModel -----------------------------
(* Numeric helpers on grids of arguments: every spacing, grid, polar        *)
(* conversion and every order of columns within the bounds, with laws about *)
(* the answers the specification gives, written out for replay.             *)
EXTENDS Numbers
CONSTANTS Counts, Bounds, Cells, Coords, Cols
VARIABLES c, y, op        \* arguments, answer
vars == <<c, y, op>>
Op(r) == << r >>
\* the grid of columns: angles that repeat, first entries that tell columns apart
Angle == << R("-3.141592653589793"), R("-1"), Zero, R("1e-12"), R("2.5") >>
Columns(s) == [j \in DOMAIN s |-> <<RInt(j), Angle[s[j]], RNeg(RInt(j))>>]
Up(k) == RMul(RDiv(Pi, RInt(12)), RInt(k))
Go(a, ans, ops) == c' = a /\ y' = ans /\ op' = ops
Line == \E p \in Bounds \X Bounds, n \in Counts :
    LET a == R(p[1])  b == R(p[2])
    IN  Go([k |-> "lin", a |-> a, b |-> b, n |-> n], IF n < 2 THEN <<>> ELSE Tab(Spacing(a, b, n)), <<[op |-> "mt.linspace", a |-> a, b |-> b, n |-> n]>>)
Raster == \E p \in Bounds \X Bounds, n \in Cells \X Cells :
    LET a == R(p[1])  b == RAdd(R(p[2]), R("0.5"))
    IN  /\ p[1] # p[2]
        /\ Go([k |-> "grid", a |-> a, b |-> b, n |-> n],
              IF n[1] < 2 \/ n[2] < 2 THEN <<>> ELSE Tab([j \in 1..(n[1] * n[2]) |-> <<Lin(a, b, n[1], (j - 1) \div n[2]), Lin(b, RAdd(b, R("3")), n[2], (j - 1) % n[2])>>]),
              <<[op |-> "mt.grid", a |-> a, b |-> b, n |-> n[1], a2 |-> b, b2 |-> RAdd(b, R("3")), n2 |-> n[2]]>>)
Polar == \E x \in Coords \X Coords \X Coords :
    LET v == <<R(x[1]), R(x[2]), R(x[3])>>
    IN  Go([k |-> "polar", v |-> v], ToPolar(v), <<[op |-> "mt.round", v |-> v], [op |-> "mt.c2p", v |-> v]>>)
Cartesian == \E r \in Coords, t \in 0..12, f \in -11..12 :
    LET v == <<RAbs(R(r)), Up(t), Up(f)>>
    IN  Go([k |-> "cart", v |-> v], FromPolar(v), <<[op |-> "mt.p2c", v |-> v]>>)
Sort == \E n \in 0..Cols : \E s \in [1..n -> 1..5] :
    Go([k |-> "sort", v |-> Columns(s)], SortCols(Columns(s)), IF n = 0 THEN <<>> ELSE <<[op |-> "mt.sort", cols |-> Columns(s)]>>)
Random == \E p \in Bounds \X Bounds :
    Go([k |-> "rand", a |-> R(p[1]), b |-> R(p[2])], <<>>, <<[op |-> "mt.rand", a |-> R(p[1]), b |-> R(p[2]), n |-> 40], [op |-> "mt.rand", a |-> R(p[1]), n |-> 40]>>)
Init == c = [k |-> "none"] /\ y = <<>> /\ op = <<>>
Next == c.k = "none" /\ (Line \/ Raster \/ Polar \/ Cartesian \/ Sort \/ Random)
Spec == Init /\ [][Next]_vars
Written == op' = <<>> \/ Emit("SEG", <<[op |-> "reset"]>> \o op')
-----------------------------------------------------------------------------
Is(k) == c.k = k
Rev(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
AllNear(s, t, u) == Len(s) = Len(t) /\ \A j \in DOMAIN s : RLe(RAbs(RSub(s[j], t[j])), RMul(R("1e-9"), u))
Size == RAdd(RAdd(RAbs(c.a), RAbs(c.b)), R("1e-300"))
\* the answer passes the judgement; swapping the bounds reverses it; halving the step keeps every value; one value off by a
\* hundredth of a step, one missing or one twice are found
Spacings == Is("lin") /\ c.n >= 2 =>
    LET h == RDiv(RSub(c.b, c.a), RInt(c.n - 1))
    IN  /\ SpacingOK(y, c.a, c.b, c.n)
        /\ AllNear(Rev(y), Spacing(c.b, c.a, c.n), Size)
        /\ AllNear(y, [j \in DOMAIN y |-> Spacing(c.a, c.b, 2 * c.n - 1)[2 * j - 1]], Size)
        /\ \A j \in DOMAIN y : Within(y[j], RMin(c.a, c.b), RMax(c.a, c.b))
        /\ RGt(RAbs(h), RMul(R("1e-6"), Size)) =>
              /\ \A j \in DOMAIN y : ~SpacingOK([y EXCEPT ![j] = RAdd(@, RMul(R("0.01"), h))], c.a, c.b, c.n)
              /\ ~SpacingOK(SubSeq(y, 1, c.n - 1), c.a, c.b, c.n) /\ ~SpacingOK(<<y[1]>> \o y, c.a, c.b, c.n)
\* every pair once
Grids == Is("grid") /\ y # <<>> =>
    /\ Cardinality({y[j] : j \in DOMAIN y}) = c.n[1] * c.n[2]
    /\ {y[j][1] : j \in DOMAIN y} \X {y[j][2] : j \in DOMAIN y} = {y[j] : j \in DOMAIN y}
Minus(v) == VNeg(v)
Polars == Is("polar") =>
    /\ PolarOK(c.v, y)
    /\ RLe(Norm(VSub(FromPolar(y), c.v)), RMul(R("1e-7"), Norm(c.v)))
    \* the opposite point: same radius, mirrored polar angle
    /\ LET m == ToPolar(Minus(c.v)) IN REq(m[1], y[1]) /\ (RGt(y[1], Zero) => Near(RAdd(m[2], y[2]), Pi, Tol))
    \* scaling keeps the angles
    /\ LET m == ToPolar(VScale(R("3"), c.v)) IN Near(m[2], y[2], TolQ) /\ Near(m[3], y[3], TolQ)
\* off the axis the judgement finds every wrong answer: angles exchanged, turned, mirrored
Sharp == Is("polar") /\ RGt(Hyp(c.v[1], c.v[2]), RMul(R("0.01"), Norm(c.v))) =>
    /\ ~PolarOK(c.v, <<y[1], y[2], RAdd(y[3], R("0.001"))>>)
    /\ ~PolarOK(c.v, <<y[1], RSub(y[2], R("0.001")), y[3]>>)
    /\ ~PolarOK(c.v, <<RMul(y[1], R("1.001")), y[2], y[3]>>)
    /\ RLt(RAbs(y[3]), R("3.14")) => ~PolarOK(c.v, <<y[1], y[2], RSub(y[3], RMul(Two, Pi))>>) \* (at the end of the range -0 tells the two apart)
Carts == Is("cart") /\ RGt(c.v[1], Zero) =>
    LET p == ToPolar(y)
    IN  /\ Near(p[1], c.v[1], Tol)
        /\ Near(p[2], c.v[2], R("1e-5"))
        /\ LET s == RSin(c.v[2]) IN RGt(s, R("1e-6")) => LET d == RAbs(RSub(p[3], c.v[3])) IN RLe(RMin(d, RAbs(RSub(d, RMul(Two, Pi)))), TolQ)
Sorts == Is("sort") =>
    /\ SortedOK(c.v, y)
    /\ \A i, j \in DOMAIN y : i # j => ~SortedOK(c.v, [y EXCEPT ![i] = y[j]])
    /\ \A i, j \in DOMAIN y : i # j => (SortedOK(c.v, [y EXCEPT ![i] = y[j], ![j] = y[i]]) <=> REq(y[i][2], y[j][2]))
    /\ Len(y) > 1 => ~SortedOK(c.v, SubSeq(y, 1, Len(y) - 1))
=============================================================================
