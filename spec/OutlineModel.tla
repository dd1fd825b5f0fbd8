---------------------------- MODULE OutlineModel ---------------------------
(* Two level ellipsoids and an agent seen from above, on grids of shapes,   *)
(* turns and offsets.  The judgements of Shapes (containment, chords,       *)
(* overlap) are compared with plain enumeration of grid points, and every   *)
(* scene is written out for replay in the library.                          *)
EXTENDS DOA
CONSTANTS Firsts, Seconds, TurnsA, TurnsB, Offsets, Walks
VARIABLES sc, g, e, f, op
vars == <<sc, g, e, f, op>>
Shape == << [axis |-> <<One, One, One>>, marg |-> Three(Zero)],
            [axis |-> <<R("1.6"), R("0.7"), One>>, marg |-> Three(Zero)],
            [axis |-> <<R("0.5"), R("1.1"), R("0.3")>>, marg |-> <<R("0.2"), R("0.1"), R("0.4")>>],
            [axis |-> <<R("2.5"), R("0.25"), Half>>, marg |-> Three(R("0.1"))],
            [axis |-> <<R("0.3"), R("0.3"), One>>, marg |-> Three(R("0.15"))] >>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == LET h == RMul(Half, Deg(n)) IN <<RCos(h), Zero, Zero, RSin(h)>>
Home == <<R("-0.7"), R("1.3"), Zero>>
Step == R("0.62")
Off(k) == << RMul(Step, RInt((k % 7) - 3)), RMul(Step, RInt((k \div 7) - 3)), Zero >>      \* k in 0..48
Obst(s, t, p) == [k |-> "obs", type |-> "Ellipsoid", name |-> "", pos |-> p, ori |-> Yaw(t), ref |-> p, lin |-> V0, ang |-> V0,
                  marg |-> Shape[s].marg, axis |-> Shape[s].axis, curv |-> Three(One)]
A(s) == Obst(s[1], s[3], Home)
B(s) == Obst(s[2], s[4], VAdd(Home, Off(s[5])))
Init == /\ sc \in Firsts \X Seconds \X TurnsA \X TurnsB \X Offsets
        /\ g = 0 /\ e = <<>> /\ f = <<>> /\ op = <<>>
-----------------------------------------------------------------------------
(* what is asked of the library                                             *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
New(h, n, o) == << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> o.pos, q |-> o.ori, lin |-> V0, ang |-> V0],
                   [op |-> "ell.new", h |-> h, kind |-> "state", name |-> n, s |-> "S1", m3 |-> o.marg], [op |-> "o.set_axis", h |-> h, v |-> o.axis] >>
At(t, d) == VAdd(Home, <<RMul(d, RCos(Deg(t))), RMul(d, RSin(Deg(t))), Zero>>)
Both(h) == [op |-> "relate", kind |-> "sameb", props |-> {"C13"}, label |-> "overlap does not depend on which obstacle is asked", x |-> "x", y |-> "y"]
Chord(h, p, q) == [op |-> "q.chord", h |-> h, v |-> p, w |-> q]
Visit(w) == \* an agent walks by: chords along its way, envelope and disc, shifts
    LET p == At(w * 40, RAdd(R("0.3"), RMul(R("0.55"), RInt(w % 5))))
        v == VSub(At(w * 40 + 100 + 31 * w, R("0.8")), p)
    IN  << [op |-> "agent.set_position", h |-> "a1", v |-> p], [op |-> "agent.set_lin", h |-> "a1", v |-> v],
           [op |-> "q.inside", h |-> "e1", v |-> p], [op |-> "q.inside", h |-> "e2", v |-> p],
           Chord("e1", p, VAdd(p, v)), Chord("e2", VAdd(p, v), p),
           [op |-> "agent.in_obs", h |-> "a1", o |-> "e1"], [op |-> "agent.in_obs", h |-> "a1", o |-> "e2"],
           [op |-> "agent.env_inter", h |-> "a1", l |-> <<"e1">>], [op |-> "agent.env_inter", h |-> "a1", l |-> <<"e1", "e2">>],
           [op |-> "o.shift", h |-> "e1", a |-> "a1"], [op |-> "o.shift", h |-> "e1", a |-> "a1"],
           [op |-> "mod.vel", a |-> "a1", e |-> "E1", local |-> (w % 4 = 0), rep |-> (w % 3 = 0), planar |-> TRUE] >>
Leaf(w) == /\ g = 0 /\ g' = w /\ UNCHANGED sc
           /\ e' = Tab(<<Outline(A(sc), TRUE), Outline(A(sc), FALSE)>>) /\ f' = Tab(<<Outline(B(sc), TRUE), Outline(B(sc), FALSE)>>)
           /\ op' = <<[op |-> "reset", nohull |-> TRUE]>> \o New("e1", "oak", A(sc)) \o New("e2", "ash", B(sc))
                 \o << [op |-> "q.inter", h |-> "e1", o |-> "e2", reg |-> "x"], [op |-> "q.inter", h |-> "e2", o |-> "e1", reg |-> "y"], Both("e1"),
                       [op |-> "q.interlist", h |-> "e1", l |-> <<"e2">>],
                       [op |-> "env.new", h |-> "E1", agg |-> FALSE], [op |-> "env.add", h |-> "E1", o |-> "e1"], [op |-> "env.add", h |-> "E1", o |-> "e2"],
                       [op |-> "env.update", h |-> "E1"],
                       [op |-> "q.sample", h |-> "e1", n |-> 5 + w, sm |-> TRUE], [op |-> "q.sample", h |-> "e2", n |-> 4 + w, sm |-> FALSE],
                       [op |-> "agent.new", h |-> "a1", kind |-> "def"] >>
                 \o Flat([j \in 1..4 |-> Visit(w * 4 + j)])
Next == \E w \in Walks : Leaf(w)
Spec == Init /\ [][Next]_vars
Written == Emit("SEG", op')
view == <<sc, g>>
-----------------------------------------------------------------------------
(* theorems                                                                 *)
Grid == {<<RMul(R("0.17"), RInt(i)), RMul(R("0.17"), RInt(j))>> : i \in -22..22, j \in -22..22}
Here(x) == <<RAdd(Home[1], x[1]), RAdd(Home[2], x[2])>>
In(o, x, lim) == RLt(Level(o, x[1], x[2]), R(lim))
Verdict == OutlinesOverlap(e[1], f[1])
\* a point in both refutes "no"; "yes" comes with a point of one outline in the other
Witness == g # 0 => \/ Verdict # "no"
                    \/ ~\E p \in Grid : In(e[1], Here(p), "0.999") /\ In(f[1], Here(p), "0.999")
Touch == g # 0 => \/ Verdict # "yes"
                  \/ \E k \in 0..199 : LET t == RMul(RInt(k), RDiv(Pi, RInt(100)))  p == OutlineAt(e[1], t)  q == OutlineAt(f[1], t)
                                       IN  RLe(Level(f[1], p[1], p[2]), R("1.0001")) \/ RLe(Level(e[1], q[1], q[2]), R("1.0001"))
Symmetric == g # 0 => Verdict = OutlinesOverlap(f[1], e[1])
\* turning the scene about the origin and mirroring it do not matter
Quarter(o) == [o EXCEPT !.cx = RNeg(o.cy), !.cy = o.cx, !.c = RNeg(o.s), !.s = o.c]
Turned == g # 0 => LET t == OutlinesOverlap(Quarter(e[1]), Quarter(f[1])) IN t = Verdict \/ "maybe" \in {t, Verdict}
\* margins only add overlap
Margins == g # 0 => ~(Verdict = "no" /\ OutlinesOverlap(e[2], f[2]) = "yes")
\* chords: ends on the outline, all between inside, all beyond outside; no chord, no point of the line inside
Chords == g # 0 => \A w \in 1..8 :
    LET p == At(w * 45, R("0.4"))  q == At(w * 45 + 70 + 20 * w, R("1.1"))
        k == LineCoef(f[1], p[1], p[2], q[1], q[2])
        at(t) == <<RAdd(p[1], RMul(t, RSub(q[1], p[1]))), RAdd(p[2], RMul(t, RSub(q[2], p[2])))>>
        lv(t) == Level(f[1], at(t)[1], at(t)[2])
        m == LineParams(k)
    IN  CASE LineMeets(k) = "yes" -> /\ Near(lv(m.t1), One, R("1e-8")) /\ Near(lv(m.t2), One, R("1e-8"))
                                     /\ RLt(lv(m.mid), One)
                                     /\ \A n \in -40..40 : LET t == RMul(RInt(n), R("0.2"))
                                                           IN  RLt(lv(t), R("0.999999")) => RLe(m.t1, t) /\ RLe(t, m.t2)
          [] LineMeets(k) = "no" -> \A n \in -40..40 : RGe(lv(RMul(RInt(n), R("0.2"))), One)
          [] OTHER -> TRUE
\* moving the reference point to the middle of a chord is final, and the middle is inside
Middle == g # 0 => \A w \in 1..8 :
    LET p == At(w * 45, R("2.3"))  q == At(w * 45 + 20 * w, R("0.2"))
        k == LineCoef(e[1], p[1], p[2], q[1], q[2])
        m == LineParams(k).mid
        c == <<RAdd(p[1], RMul(m, RSub(q[1], p[1]))), RAdd(p[2], RMul(m, RSub(q[2], p[2])))>>
        \* on the same line from somewhere else
        k2 == LineCoef(e[1], c[1], c[2], q[1], q[2])
    IN  LineMeets(k) = "yes" /\ RGt(Hyp(RSub(c[1], q[1]), RSub(c[2], q[2])), R("1e-3")) => RLe(RAbs(LineParams(k2).mid), R("1e-9")) /\ In(e[1], c, "1")
=============================================================================
