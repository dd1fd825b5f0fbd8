-------------------------------- MODULE Geom -------------------------------
(* Vectors, unit quaternions <<w, x, y, z>> and rigid motions [p, q] over   *)
(* the reals of Num.                                                        *)
EXTENDS Num, FiniteSets, TLC
Zero == R("0")
One  == R("1")
Two  == R("2")
Half == R("0.5")
Pi   == R("pi")
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
Sq(a)     == RMul(a, a)
V0        == <<Zero, Zero, Zero>>
EX        == <<One, Zero, Zero>>
EY        == <<Zero, One, Zero>>
EZ        == <<Zero, Zero, One>>
VAdd(a, b)   == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
VSub(a, b)   == <<RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3])>>
VScale(s, a) == <<RMul(s, a[1]), RMul(s, a[2]), RMul(s, a[3])>>
VNeg(a)      == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
Dot(a, b)    == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
Cross(a, b)  == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Norm(a)      == RSqrt(Dot(a, a))
Unit(a)      == LET n == Norm(a) IN IF RGt(n, Zero) THEN VScale(RDiv(One, n), a) ELSE a
VSum(s)      == << RSum([i \in DOMAIN s |-> s[i][1]]), RSum([i \in DOMAIN s |-> s[i][2]]), RSum([i \in DOMAIN s |-> s[i][3]]) >>
VMean(s)     == VScale(RDiv(One, RInt(Len(s))), VSum(s))
\* in the plane
Hyp(x, y)    == RSqrt(RAdd(Sq(x), Sq(y)))
-----------------------------------------------------------------------------
QId        == <<One, Zero, Zero, Zero>>
QMul(a, b) == << RSub(RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[3], b[3]), RMul(a[4], b[4]))),
                 RAdd(RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])), RSub(RMul(a[3], b[4]), RMul(a[4], b[3]))),
                 RAdd(RSub(RMul(a[1], b[3]), RMul(a[2], b[4])), RAdd(RMul(a[3], b[1]), RMul(a[4], b[2]))),
                 RAdd(RAdd(RMul(a[1], b[4]), RMul(a[2], b[3])), RSub(RMul(a[4], b[1]), RMul(a[3], b[2]))) >>
QConj(a)   == <<a[1], RNeg(a[2]), RNeg(a[3]), RNeg(a[4])>>
QLen(a)    == RSqrt(RSum(<<Sq(a[1]), Sq(a[2]), Sq(a[3]), Sq(a[4])>>))
QUnit(a)   == LET n == QLen(a) IN <<RDiv(a[1], n), RDiv(a[2], n), RDiv(a[3], n), RDiv(a[4], n)>>
\* rotation of v by the unit quaternion q
QRot(q, v) == LET u == <<q[2], q[3], q[4]>>
                  t == VScale(Two, Cross(u, v))
              IN  VAdd(v, VAdd(VScale(q[1], t), Cross(u, t)))
QYaw(c, s) == \* rotation about the vertical by the angle with cosine c, sine s
    LET h == RMul(Half, RAtan2(s, c)) IN <<RCos(h), Zero, Zero, RSin(h)>>
PMul(a, b)   == [p |-> VAdd(a.p, QRot(a.q, b.p)), q |-> QMul(a.q, b.q)]
PInv(a)      == [p |-> QRot(QConj(a.q), VNeg(a.p)), q |-> QConj(a.q)]
PApply(a, v) == VAdd(a.p, QRot(a.q, v))
PId          == [p |-> V0, q |-> QId]
ToLocal(o, v) == QRot(QConj(o.ori), VSub(v, o.pos))      \* v in the frame of obstacle or agent o
ToWorld(o, v) == VAdd(o.pos, QRot(o.ori, v))
-----------------------------------------------------------------------------
\* comparison with tolerance t, relative to the magnitude but at least 1
Near(a, b, t) == \/ a = b
                 \/ RLe(RAbs(RSub(a, b)), RMul(t, RAdd(One, RMax(RAbs(a), RAbs(b)))))
Within(a, lo, hi) == RLe(lo, a) /\ RLe(a, hi)
VNear(a, b, t) == \/ a = b
                  \/ RLe(Norm(VSub(a, b)), RMul(t, RAdd(One, RMax(Norm(a), Norm(b)))))
VFinite(a)     == RFinite(a[1]) /\ RFinite(a[2]) /\ RFinite(a[3])
QNear(a, b, t) == \/ a = b
                  \/ \A i \in 1..4 : RLe(RAbs(RSub(a[i], b[i])), t)
                  \/ \A i \in 1..4 : RLe(RAbs(RAdd(a[i], b[i])), t)
REq(a, b) == RLe(a, b) /\ RLe(b, a)
VEq(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2]) /\ REq(a[3], b[3])
Tol  == R("1e-9")
TolQ == R("1e-6")
=============================================================================
