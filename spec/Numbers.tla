------------------------------ MODULE Numbers ------------------------------
(* Numeric helpers: spacings, grids, polar coordinates, sorted columns.     *)
EXTENDS Geom
SpacingOK(l, lo, hi, n) ==
    LET h == RDiv(RSub(hi, lo), RInt(n - 1))
        t == RMul(R("1e-9"), RAdd(RAdd(RAbs(lo), RAbs(hi)), R("1e-300")))
    IN  /\ Len(l) = n /\ REq(l[1], lo) /\ REq(l[n], hi)
        /\ \A j \in 1..n : RLe(RAbs(RSub(l[j], RAdd(lo, RMul(RInt(j - 1), h)))), t)
        /\ \A j \in 1..(n - 1) : RLe(RAbs(RSub(RSub(l[j + 1], l[j]), h)), RAdd(t, t))
Lin(lo, hi, n, j) == RAdd(lo, RMul(RInt(j), RDiv(RSub(hi, lo), RInt(n - 1))))
PolarOK(v, p) ==
    LET nr == Norm(v)
        tol == RMul(R("1e-7"), nr)
    IN  /\ RLe(RAbs(RSub(p[1], nr)), RMul(Tol, nr))
        /\ RGt(p[3], RNeg(RAdd(Pi, R("1e-12")))) /\ RLe(p[3], RAdd(Pi, R("1e-12")))
        /\ RLe(RAbs(RSub(RMul(p[1], RCos(p[2])), v[3])), tol)
        /\ RGe(p[2], Zero) /\ RLe(p[2], RAdd(Pi, R("1e-12")))
        /\ (RGt(Hyp(v[1], v[2]), tol) => LET d == RSub(p[3], RAtan2(v[2], v[1]))
                                         IN  RLe(RMin(RAbs(d), RAbs(RSub(RAbs(d), RMul(Two, Pi)))), R("1e-6")))
SortedOK(cols, r) ==
    /\ Len(r) = Len(cols)
    /\ \A j \in 1..(Len(r) - 1) : RLe(r[j][2], r[j + 1][2])
    /\ \A j \in DOMAIN cols : Cardinality({m \in DOMAIN cols : VEq(cols[m], cols[j])}) = Cardinality({m \in DOMAIN r : VEq(r[m], cols[j])})
\* the answers themselves
Spacing(lo, hi, n) == [j \in 1..n |-> IF j = n THEN hi ELSE Lin(lo, hi, n, j - 1)]
ToPolar(v) == LET r == Norm(v) IN <<r, IF RGt(r, Zero) THEN RAcos(RDiv(v[3], r)) ELSE Zero, RAtan2(v[2], v[1])>>
FromPolar(p) == << RMul(RMul(p[1], RSin(p[2])), RCos(p[3])), RMul(RMul(p[1], RSin(p[2])), RSin(p[3])), RMul(p[1], RCos(p[2])) >>
RECURSIVE SortCols(_)
SortCols(cols) == \* stable insertion by the second entry
    IF cols = <<>> THEN <<>>
    ELSE LET s == SortCols(SubSeq(cols, 1, Len(cols) - 1))  c == cols[Len(cols)]
             k == CHOOSE m \in 0..Len(s) : (\A j \in 1..m : RLe(s[j][2], c[2])) /\ (\A j \in (m + 1)..Len(s) : RLt(c[2], s[j][2]))
         IN  SubSeq(s, 1, k) \o <<c>> \o SubSeq(s, k + 1, Len(s))
=============================================================================
