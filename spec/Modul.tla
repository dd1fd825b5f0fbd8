-------------------------------- MODULE Modul ------------------------------
(* The modulation law, without reference to any basis: the modulation by    *)
(* one obstacle scales the reference direction by 1 - 1/d and the tangent   *)
(* plane by 1 + 1/d; several obstacles are composed by weighted magnitude   *)
(* and weighted angle.                                                      *)
EXTENDS Shapes
Weights(d, crit, pow) ==
    LET n == Len(d)
        near == {i \in 1..n : RLe(d[i], crit)}
        raw == Tab([i \in 1..n |-> RPow(RSub(d[i], crit), RNeg(pow))])
        tot == RSum(raw)
    IN  IF near # {} THEN [i \in 1..n |-> IF i \in near THEN RDiv(One, RInt(Cardinality(near))) ELSE Zero]
        ELSE [i \in 1..n |-> RDiv(raw[i], tot)]
WeightsUnclear(d, crit) == \E i \in DOMAIN d : RLe(RAbs(RSub(d[i], crit)), R("1e-7"))
\* reduction 1/d^(1/f) of the reference direction, 1 on and inside the surface
Delta(d, f) == IF RLe(d, One) THEN One ELSE RDiv(One, RPow(d, RDiv(One, f)))
\* modulation of v by an obstacle at distance value d with unit normal n and reference direction r
Modulate(v, n, r, d) ==
    LET u == Unit(r)
        a == RDiv(Dot(n, v), Dot(n, u))
        along == VScale(a, u)
        del == Delta(d, One)
    IN  VAdd(VScale(RSub(One, del), along), VScale(RAdd(One, del), VSub(v, along)))
PointVelocity(o, x) == VAdd(o.lin, Cross(o.ang, VSub(x, o.pos)))
Damping(d) == RExp(RNeg(RSub(RMax(One, d), One)))
ObstacleMotion(x, obs, d, w) ==
    VSum([i \in DOMAIN obs |-> VScale(RMul(w[i], Damping(d[i])), PointVelocity(obs[i], x))])
\* One modulation step.  obs: sequence of obstacle records, d: distance values, n: unit normals in
\* the world frame.  Returns [ok, v]; ok is FALSE where the law is singular or ill-conditioned.
Law(x, vel, obs, d, n, crit, pow) ==
    LET w == Tab(Weights(d, crit, pow))
        motion == ObstacleMotion(x, obs, d, w)
        rel == VSub(vel, motion)
        e == Unit(rel)
        speed == Norm(rel)
        r(i) == Unit(VSub(x, obs[i].ref))
        m == Tab([i \in DOMAIN obs |-> Modulate(rel, n[i], r(i), d[i])])
        tang(i) == VSub(Unit(m[i]), VScale(Dot(Unit(m[i]), e), e))     \* part of the direction normal to e
        ang(i) == RAcos(Dot(Unit(m[i]), e))
        mag == RSum([i \in DOMAIN obs |-> RMul(w[i], Norm(m[i]))])
        kappa == VSum([i \in DOMAIN obs |-> VScale(RMul(w[i], ang(i)), Unit(tang(i)))])
        k == Norm(kappa)
        dir == IF RLt(k, R("1e-12")) THEN e
               ELSE VAdd(VScale(RCos(k), e), VScale(RDiv(RSin(k), k), kappa))
        still == RLe(speed, Zero)
        sound(i) == \/ RLe(w[i], R("1e-12"))
                    \/ /\ RGe(RAbs(Dot(n[i], r(i))), R("1e-3"))
                       /\ RGe(Norm(m[i]), RMul(R("1e-5"), speed))
                       /\ RGe(Dot(Unit(m[i]), e), R("-0.999999"))
        regular(i) == RGe(Norm(VSub(x, obs[i].ref)), R("1e-7")) /\ RGe(RAbs(Dot(n[i], r(i))), R("1e-6"))
                      /\ RGe(RAbs(RSub(Norm(n[i]), One)), Zero) /\ RLe(RAbs(RSub(Norm(n[i]), One)), R("1e-6"))
    IN  IF ~(\A i \in DOMAIN obs : regular(i) /\ RFinite(d[i])) \/ WeightsUnclear(d, crit)
        THEN [ok |-> FALSE, v |-> V0, motion |-> V0]
        ELSE IF still THEN [ok |-> TRUE, v |-> motion, motion |-> motion]
        ELSE IF RLt(speed, R("1e-9")) THEN [ok |-> FALSE, v |-> V0, motion |-> motion]
        ELSE IF ~(\A i \in DOMAIN obs : sound(i)) THEN [ok |-> FALSE, v |-> V0, motion |-> motion]
        ELSE [ok |-> TRUE, v |-> VAdd(VScale(mag, dir), motion), motion |-> motion]
=============================================================================
