------------------------------- MODULE Lattice -----------------------------
(* Exact rigid motions on integers: the 24 rotations of a cube as integer   *)
(* matrices (a matrix is the sequence of its columns), with a quaternion    *)
(* for each.  Models use them as an oracle that shares no arithmetic with   *)
(* the real-valued operators of Geom.                                       *)
EXTENDS Geom
I3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
MV(m, v) == [i \in 1..3 |-> m[1][i] * v[1] + m[2][i] * v[2] + m[3][i] * v[3]]
Tu(f) == <<f[1], f[2], f[3]>>
MM(a, b) == << Tu(MV(a, b[1])), Tu(MV(a, b[2])), Tu(MV(a, b[3])) >>
MT(a) == << <<a[1][1], a[2][1], a[3][1]>>, <<a[1][2], a[2][2], a[3][2]>>, <<a[1][3], a[2][3], a[3][3]>> >>
IAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
INeg(a) == <<-a[1], -a[2], -a[3]>>
Real3(v) == <<RInt(v[1]), RInt(v[2]), RInt(v[3])>>
Yaw90 == << <<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>> >>
Roll90 == << <<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>> >>
QYaw90 == <<RSqrt(Half), Zero, Zero, RSqrt(Half)>>
QRoll90 == <<RSqrt(Half), RSqrt(Half), Zero, Zero>>
RECURSIVE Closure(_)
Closure(f) ==
    LET more == [m \in DOMAIN f \cup {MM(a, Yaw90) : a \in DOMAIN f} \cup {MM(a, Roll90) : a \in DOMAIN f} |->
                    IF m \in DOMAIN f THEN f[m]
                    ELSE LET byYaw == {a \in DOMAIN f : MM(a, Yaw90) = m}
                         IN  IF byYaw # {} THEN QMul(f[CHOOSE a \in byYaw : TRUE], QYaw90)
                             ELSE QMul(f[CHOOSE a \in DOMAIN f : MM(a, Roll90) = m], QRoll90)]
    IN  IF DOMAIN more = DOMAIN f THEN f ELSE Closure(more)
\* rotation matrix -> quaternion
Quat == Closure(I3 :> QId)
Rotations == DOMAIN Quat
ASSUME Cardinality(Rotations) = 24
ASSUME \A m \in Rotations : \A e \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 2, 3>>} :
          VNear(QRot(Quat[m], Real3(e)), Real3(MV(m, e)), Tol)
\* a rigid motion is [m, t]
PM(a, b) == [m |-> MM(a.m, b.m), t |-> Tu(IAdd(a.t, MV(a.m, b.t)))]
PI(a) == [m |-> MT(a.m), t |-> Tu(INeg(MV(MT(a.m), a.t)))]
PV(a, v) == Tu(IAdd(a.t, MV(a.m, v)))
RealPose(a) == [p |-> Real3(a.t), q |-> Quat[a.m]]
=============================================================================
