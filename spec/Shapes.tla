-------------------------------- MODULE Shapes -----------------------------
(* What the shape of an obstacle means: level value, normal, the horizontal *)
(* outline, overlap, hulls, surface area.  Obstacles are records with       *)
(* fields pos, ori, ref, marg and, for ellipsoids, axis and curv.           *)
EXTENDS Geom
-----------------------------------------------------------------------------
(* level value and normal                                                   *)
Lengths(o, extra) == [i \in 1..3 |-> LET l == RAdd(RAdd(o.axis[i], o.marg[i]), extra[i])
                                     IN  IF RGt(l, R("1e-4")) THEN l ELSE One]
\* axes whose length is too close to the threshold of "no extent" to be judged
LengthsUnclear(o, extra) == \E i \in 1..3 : LET l == RAdd(RAdd(o.axis[i], o.marg[i]), extra[i])
                                            IN  RLe(RAbs(RSub(l, R("1e-4"))), R("1e-9"))
Gamma(o, v, extra) ==
    LET x == ToLocal(o, v)
        l == Lengths(o, extra)
    IN  RSum([i \in 1..3 |-> RPow(RAbs(RDiv(x[i], l[i])), RMul(Two, o.curv[i]))])
\* what the rounding of the point in the frame of the obstacle may add to it
LocalError(o, v) == RMul(R("4e-15"), RAdd(RAdd(Norm(o.pos), Norm(v)), One))
GammaSlack(o, v, extra) ==
    LET x == ToLocal(o, v)
        l == Lengths(o, extra)
        d == LocalError(o, v)
        h(i, y) == RPow(RDiv(y, l[i]), RMul(Two, o.curv[i]))
    IN  RSum([i \in 1..3 |-> RSub(h(i, RAdd(RAbs(x[i]), d)), h(i, RAbs(x[i])))])
Three(m) == <<m, m, m>>
\* gradient of the level value in the obstacle's own frame
Gradient(o, v, extra) ==
    LET x == ToLocal(o, v)
        l == Lengths(o, extra)
        g(i) == LET t == RDiv(x[i], l[i])
                    m == RMul(RDiv(RMul(Two, o.curv[i]), l[i]), RPow(RAbs(t), RSub(RMul(Two, o.curv[i]), One)))
                IN  IF RLt(t, Zero) THEN RNeg(m) ELSE m
    IN  <<g(1), g(2), g(3)>>
\* bound on the error of its direction that the rounding of the point in the frame of the obstacle may cause
GradientSlack(o, v, extra) ==
    LET x == ToLocal(o, v)
        l == Lengths(o, extra)
        d == LocalError(o, v)
        h(i, y) == RMul(RDiv(RMul(Two, o.curv[i]), l[i]), RPow(RDiv(y, l[i]), RSub(RMul(Two, o.curv[i]), One)))
        e(i) == RSub(h(i, RAdd(RAbs(x[i]), d)), h(i, RAbs(x[i])))
    IN  RMul(R("4"), RDiv(RAdd(RAdd(e(1), e(2)), e(3)), Norm(Gradient(o, v, extra))))
-----------------------------------------------------------------------------
(* the horizontal outline of an ellipsoid turned about the vertical         *)
IsPlanar(o) == RLe(RAbs(o.ori[2]), R("1e-9")) /\ RLe(RAbs(o.ori[3]), R("1e-9"))
Outline(o, withMargin) ==
    LET w == o.ori[1]  z == o.ori[4]
    IN  [cx |-> o.pos[1], cy |-> o.pos[2], z |-> o.pos[3],
         c |-> RSub(Sq(w), Sq(z)), s |-> RMul(Two, RMul(w, z)),
         a |-> IF withMargin THEN RAdd(o.axis[1], o.marg[1]) ELSE o.axis[1],
         b |-> IF withMargin THEN RAdd(o.axis[2], o.marg[2]) ELSE o.axis[2]]
Proper(e)   == RGt(e.a, R("1e-6")) /\ RGt(e.b, R("1e-6"))
LocX(e, x, y) == RAdd(RMul(e.c, RSub(x, e.cx)), RMul(e.s, RSub(y, e.cy)))
LocY(e, x, y) == RSub(RMul(e.c, RSub(y, e.cy)), RMul(e.s, RSub(x, e.cx)))
Level(e, x, y) == RAdd(Sq(RDiv(LocX(e, x, y), e.a)), Sq(RDiv(LocY(e, x, y), e.b)))
OutlineAt(e, t) == LET u == RMul(e.a, RCos(t))  v == RMul(e.b, RSin(t))
                   IN  <<RAdd(e.cx, RSub(RMul(e.c, u), RMul(e.s, v))), RAdd(e.cy, RAdd(RMul(e.s, u), RMul(e.c, v)))>>
\* line p + t*(q - p): coefficients of A t^2 + 2 B t + C = 0
LineCoef(e, px, py, qx, qy) ==
    LET ux == RDiv(LocX(e, px, py), e.a)  uy == RDiv(LocY(e, px, py), e.b)
        vx == RSub(RDiv(LocX(e, qx, qy), e.a), ux)  vy == RSub(RDiv(LocY(e, qx, qy), e.b), uy)
        A == RAdd(Sq(vx), Sq(vy))
        B == RAdd(RMul(ux, vx), RMul(uy, vy))
        \* distance of the line from the centre, in the frame where the outline is the unit circle
        h == IF RGt(A, Zero) THEN RDiv(RAbs(RSub(RMul(ux, vy), RMul(uy, vx))), RSqrt(A)) ELSE R("inf")
    IN  [A |-> A, B |-> B, h |-> h]
\* "yes" / "no" / "maybe" whether the line cuts the outline
LineMeets(k) == IF RLt(k.h, R("0.999999")) THEN "yes" ELSE IF RGt(k.h, R("1.000001")) THEN "no" ELSE "maybe"
LineParams(k) ==
    LET m == RNeg(RDiv(k.B, k.A))
        d == RDiv(RSqrt(RMax(Zero, RSub(One, Sq(k.h)))), RSqrt(k.A))
    IN  [mid |-> m, t1 |-> RSub(m, d), t2 |-> RAdd(m, d)]
-----------------------------------------------------------------------------
(* overlap of two horizontal outlines: "yes", "no" or "maybe" (not settled  *)
(* by the property: overlaps thinner than 1/25 of both outlines)            *)
NArc == 200
NDir == 64
ArcIn(e, f) ==  \* an arc of e of at least 1/25 of its parameter range lies inside f
    LET in == [k \in 0..(NArc - 1) |-> LET p == OutlineAt(e, RDiv(RMul(RMul(Two, Pi), RInt(k)), RInt(NArc)))
                                       IN  RLt(Level(f, p[1], p[2]), R("0.999999999"))]
    IN  \E k \in 0..(NArc - 1) : \A j \in 0..9 : in[(k + j) % NArc]
Support(e, ux, uy) == RAdd(RAdd(RMul(e.cx, ux), RMul(e.cy, uy)),
                           Hyp(RMul(e.a, RAdd(RMul(e.c, ux), RMul(e.s, uy))),
                               RMul(e.b, RSub(RMul(e.c, uy), RMul(e.s, ux)))))
Separated(e, f) ==
    \E k \in 0..(NDir - 1) :
        LET t == RDiv(RMul(RMul(Two, Pi), RInt(k)), RInt(NDir))
            ux == RCos(t)  uy == RSin(t)
        IN  RLt(RAdd(Support(e, ux, uy), Support(f, RNeg(ux), RNeg(uy))), R("-1e-9"))
OutlinesOverlap(e, f) ==
    IF ~(Proper(e) /\ Proper(f)) THEN "maybe"
    ELSE LET d == Hyp(RSub(e.cx, f.cx), RSub(e.cy, f.cy))
             l1 == Level(e, f.cx, f.cy)  l2 == Level(f, e.cx, e.cy)
         IN  IF RGt(d, RAdd(RAdd(RMax(e.a, e.b), RMax(f.a, f.b)), R("1e-9"))) THEN "no"
             ELSE IF RLt(l1, R("0.999999999")) \/ RLt(l2, R("0.999999999")) THEN "yes"
             ELSE IF RLe(l1, R("1.000000001")) \/ RLe(l2, R("1.000000001")) THEN "maybe"
             ELSE IF Separated(e, f) THEN "no"
             ELSE IF ArcIn(e, f) \/ ArcIn(f, e) THEN "yes"
             ELSE "maybe"
Or3(S) == IF "yes" \in S THEN "yes" ELSE IF "maybe" \in S THEN "maybe" ELSE "no"
Consistent(verdict, answer) == verdict = "maybe" \/ answer = (verdict = "yes")
-----------------------------------------------------------------------------
(* hulls: distance at which the ray from (x, y) with bearing t crosses the  *)
(* members' outlines, outermost or innermost                                *)
RayHits(e, x, y, t) ==   \* distances of the forward crossings, as a set
    LET k == LineCoef(e, x, y, RAdd(x, RCos(t)), RAdd(y, RSin(t)))
    IN  IF RGe(k.h, One) THEN {}
        ELSE LET p == LineParams(k) IN {r \in {p.t1, p.t2} : RGt(r, Zero)}
HullRadius(outs, x, y, t, inside, minr) ==
    LET hits == UNION {RayHits(outs[i], x, y, t) : i \in DOMAIN outs}
        best == IF inside THEN CHOOSE r \in hits : \A q \in hits : RLe(r, q)
                          ELSE CHOOSE r \in hits : \A q \in hits : RLe(q, r)
    IN  IF hits = {} THEN minr ELSE RMax(minr, best)
HullStep(n) == RDiv(RMul(Two, Pi), RInt(n))        \* angle between samples of a hull with n of them
\* sub-steps per step: half steps, finer ones for a hull with few samples
Sub(n) == IF n >= 500 THEN 2 ELSE 2 * ((499 + n) \div n)
\* bearings near t (in order) that bracket the surface there: sub-steps, and both sides of every bearing at which
\* the ray is tangent to an outline
TangentOffsets(e, x, y, t, lo, hi) ==
    LET d == RSqrt(Level(e, x, y))
        f == RAtan2(RDiv(LocY(e, x, y), e.b), RDiv(LocX(e, x, y), e.a))
        off(s) == LET q == OutlineAt(e, RAdd(f, RMul(s, RAcos(RDiv(One, d)))))
                      u == RSub(RAtan2(RSub(q[2], y), RSub(q[1], x)), t)
                  IN  RSub(u, RMul(RMul(Two, Pi), RInt(RFloor(RAdd(Half, RDiv(u, RMul(Two, Pi)))))))
    IN  IF RLe(d, One) THEN {} ELSE {o \in {off(One), off(RNeg(One))} : RLt(lo, o) /\ RLt(o, hi)}
\* from and to in half steps
HullBearings(outs, x, y, t, n, from, to) ==
    LET h == Sub(n) \div 2
        step == RDiv(HullStep(n), RInt(Sub(n)))
        lo == RMul(RInt(from * h), step)
        hi == RMul(RInt((to + 2) * h), step)
        ts == UNION {TangentOffsets(outs[j], x, y, t, lo, hi) : j \in DOMAIN outs}
        all == {RMul(RInt(k), step) : k \in (from * h)..(to * h)} \cup UNION {{RSub(o, R("1e-7")), RAdd(o, R("1e-7"))} : o \in ts}
        c == Cardinality(all)
        rank(o) == Cardinality({q \in all : RLt(q, o)}) + 1
        at == [o \in all |-> rank(o)]
    IN  [j \in 1..c |-> RAdd(t, CHOOSE o \in all : at[o] = j)]
\* bounds of the surface radius at bearing t, averaging and sampling allowed for
HullWindowOf(outs, x, y, t, inside, minr, n, from, to) ==
    LET u == HullBearings(outs, x, y, t, n, from, to)
        w == { HullRadius(outs, x, y, u[j], inside, minr) : j \in DOMAIN u }
        lo == CHOOSE r \in w : \A q \in w : RLe(r, q)
        hi == CHOOSE r \in w : \A q \in w : RLe(q, r)
    IN  [lo |-> lo, hi |-> hi]
HullWindow(outs, x, y, t, inside, minr, n) == HullWindowOf(outs, x, y, t, inside, minr, n, -4, 6)
\* averaging carries a jump of the radius on over several bearings; directions notice that sooner than distances
HullWide(outs, x, y, t, inside, minr, n) == HullWindowOf(outs, x, y, t, inside, minr, n, -12, 12)
HullBounds(outs, x, y, t, inside, minr, n) ==
    LET w == HullWindow(outs, x, y, t, inside, minr, n)
    IN  [lo |-> RSub(RMul(w.lo, R("0.99")), R("1e-6")), hi |-> RAdd(RMul(w.hi, R("1.01")), R("1e-6"))]
\* closedness: surface everywhere farther than 1.2 minimum radii.  "yes"/"no"/"maybe".  A dip one and a half steps wide holds a
\* sample of the surface, wherever the samples are; its value is averaged with a tenth of its neighbours' (which are averages too).
HullClosed(outs, x, y, inside, minr, n) ==
    LET r == Tab([k \in 1..(2 * n) |-> HullRadius(outs, x, y, RSub(RMul(RMul(RInt(k - 1), Half), HullStep(n)), Pi), inside, minr)])
        at(k) == r[((k + 2 * n) % (2 * n)) + 1]
        far(a, b) == CHOOSE q \in {at(k) : k \in a..b} : \A p \in {at(k) : k \in a..b} : RLe(p, q)
        bound == RMul(R("1.2"), minr)
        dip(k) == /\ \A m \in k..(k + 3) : RLt(at(m), bound)
                  /\ RLt(RAdd(RMul(R("0.9"), far(k, k + 3)), RAdd(RMul(R("0.09"), far(k - 2, k + 5)), RMul(R("0.01"), far(k - 8, k + 11)))),
                         RMul(bound, R("0.999999")))
    IN  IF \A k \in DOMAIN r : RGt(r[k], RMul(bound, R("1.002"))) THEN "yes"
        ELSE IF \E k \in 0..(2 * n - 1) : dip(k) THEN "no"
        ELSE "maybe"
\* range of the tangent directions of the surface near bearing t: bounds of nv . tangent
HullTangentDots(outs, x, y, t, inside, minr, n, nv) ==
    LET u == HullBearings(outs, x, y, t, n, -5, 7)
        p == [j \in DOMAIN u |-> LET r == HullRadius(outs, x, y, u[j], inside, minr)
                                 IN  <<RMul(r, RCos(u[j])), RMul(r, RSin(u[j])), Zero>>]
        d == { Dot(nv, Unit(VSub(p[j + 1], p[j]))) : j \in 1..(Len(u) - 1) }
    IN  [lo |-> CHOOSE r \in d : \A q \in d : RLe(r, q), hi |-> CHOOSE r \in d : \A q \in d : RLe(q, r)]
-----------------------------------------------------------------------------
(* surface area by quadrature                                               *)
NQ == 30
Area(l) ==
    LET ab == RMul(l[1], l[2])  ac == RMul(l[1], l[3])  bc == RMul(l[2], l[3])
        h == RDiv(RMul(Half, Pi), RInt(NQ))
        mid(i) == RMul(h, RAdd(RInt(i - 1), Half))
        up == Tab([i \in 1..NQ |-> <<RCos(mid(i)), RSin(mid(i))>>])
        f(i, j) == RMul(up[i][2], RSqrt(RAdd(RMul(Sq(up[i][2]), RAdd(Sq(RMul(bc, up[j][1])), Sq(RMul(ac, up[j][2])))), Sq(RMul(ab, up[i][1])))))
        row(i) == RSum([j \in 1..NQ |-> f(i, j)])
    IN  RMul(RMul(RInt(8), Sq(h)), RSum([i \in 1..NQ |-> row(i)]))
=============================================================================
