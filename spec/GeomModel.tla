------------------------------ MODULE GeomModel ----------------------------
(* Laws of the vectors and quaternions of Geom on a grid, and agreement of  *)
(* their definitions there with the Java evaluation (Geom.java), bit for    *)
(* bit: the module writes the values of every operator under the name of    *)
(* the run, and the values of two runs are compared.                        *)
EXTENDS Lattice
\* cfg: SPECIFICATION Spec; CONSTANT Coord = {"0", "1", "-0.7", "1e-9", "12", "-2.3"}; INVARIANT Same; CHECK_DEADLOCK FALSE
CONSTANTS Coord
VARIABLES a, b
Val(c) == R(c)
Vec == [1..3 -> Coord]
Of(f) == <<Val(f[1]), Val(f[2]), Val(f[3])>>
Quats == {QId, QYaw90, QRoll90, QYaw(R("0.8"), R("0.6")), QMul(QYaw(R("0.8"), R("-0.6")), QRoll90)}
Init == a \in Vec /\ b \in Vec
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
x == Of(a)
y == Of(b)
Values == << VAdd(x, y), VSub(x, y), VScale(x[1], y), VNeg(x), Dot(x, y), Cross(x, y), Norm(x), Unit(x),
             [q \in 1..Cardinality(Quats) |-> LET s == CHOOSE f \in [1..Cardinality(Quats) -> Quats] : TRUE IN QRot(s[q], x)],
             QMul(<<x[1], x[2], x[3], y[1]>>, <<y[1], y[2], y[3], x[2]>>), QConj(<<x[1], x[2], x[3], y[1]>>),
             Near(x[1], y[1], R("0.1")), VNear(x, y, R("0.3")) >>
Laws == /\ VNear(Cross(x, y), VNeg(Cross(y, x)), Tol)
        /\ Near(Dot(x, Cross(x, y)), Zero, Tol)
        /\ \A q \in Quats : /\ Near(Norm(QRot(q, x)), Norm(x), Tol)
                            /\ VNear(QRot(QConj(q), QRot(q, x)), x, Tol)
                            /\ Near(Dot(QRot(q, x), QRot(q, y)), Dot(x, y), Tol)
                            /\ VNear(QRot(q, Cross(x, y)), Cross(QRot(q, x), QRot(q, y)), Tol)
                            /\ \A r \in Quats : VNear(QRot(QMul(q, r), x), QRot(q, QRot(r, x)), Tol)
        /\ (Norm(x) # Zero => Near(Norm(Unit(x)), One, Tol))
Same == Laws /\ Emit("V", Values)
============================================================================
