------------------------------ MODULE HullModel ----------------------------
(* Groups of level ellipsoids (pairs, triples, closed and open rings) and   *)
(* their surfaces: the laws of radius, containment, distance and            *)
(* closedness over all bearings of a grid, and every group written out for  *)
(* replay as an aggregate and as hulls in the library.                      *)
EXTENDS DOA
CONSTANTS Groups, Gaps, Headings, Turns, MinR, Kinds
VARIABLES sc, mem, outs, ctr, g, op
vars == <<sc, mem, outs, ctr, g, op>>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == LET h == RMul(Half, Deg(n)) IN <<RCos(h), Zero, Zero, RSin(h)>>
At(c, t, d) == VAdd(c, <<RMul(d, RCos(Deg(t))), RMul(d, RSin(Deg(t))), Zero>>)
Home == << V0, <<R("-2.3"), R("1.7"), R("0.3")>> >>
Ell(p, t, a, b, m) == [k |-> "obs", type |-> "Ellipsoid", name |-> "", pos |-> p, ori |-> Yaw(t), ref |-> p, lin |-> V0, ang |-> V0,
                       marg |-> Three(m), axis |-> <<a, b, One>>, curv |-> Three(One)]
Gap(d) == <<R("0.6"), R("1.1"), R("1.7"), R("3.2")>>[d]
Tg(n) == RDiv(RSin(RDiv(Pi, RInt(n))), RCos(RDiv(Pi, RInt(n))))
Ring(c, n, k, r, t) == [j \in 1..k |-> Ell(At(c, t + ((j - 1) * 360) \div n, r), t + ((j - 1) * 360) \div n + 90, RMul(RMul(r, Tg(n)), R("1.4")), R("0.35"), Zero)]
Make(s) ==
    LET c == Home[s[5]]  d == Gap(s[2])  h == s[3]  t == s[4]
        big == Ell(At(c, h, d), t, R("1.2"), R("0.7"), Zero)
        thin == Ell(At(c, h + 180, RMul(Half, d)), 90 - t, R("0.3"), R("1.5"), R("0.1"))
        round == Ell(At(c, h + 80, d), 0, R("0.8"), R("0.8"), R("0.05"))
    IN  CASE s[1] = "pair" -> <<big, thin>>
          [] s[1] = "twins" -> <<big, Ell(At(c, h + 180, d), t, R("1.2"), R("0.7"), Zero)>>
          [] s[1] = "triple" -> <<big, thin, round>>
          [] s[1] = "ring" -> Ring(c, 5 + (s[2] % 3), 5 + (s[2] % 3), RAdd(Two, RMul(R("0.3"), RInt(s[2]))), h)
          [] s[1] = "open" -> Ring(c, 6 + (s[2] % 3), 5 + (s[2] % 3), RAdd(Two, RMul(R("0.3"), RInt(s[2]))), h)
Init == /\ sc \in Groups \X Gaps \X Headings \X Turns \X {1, 2} \X MinR
        /\ (sc[1] \in {"ring", "open"} => sc[4] = CHOOSE t \in Turns : TRUE)
        /\ g = 0 /\ mem = Make(sc) /\ outs = Tab([j \in DOMAIN mem |-> Outline(mem[j], TRUE)])
        /\ ctr = VMean([j \in DOMAIN mem |-> mem[j].pos]) /\ op = <<>>
-----------------------------------------------------------------------------
(* what is asked                                                            *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Hn(j) == <<"e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8">>[j]
Nm(j) == <<"ox", "asp", "Bat", "cow", "doe", "elk", "fly", "gnu">>[j]
Bears == <<0, 180, -180, 90, -90, 17, 53, 121, 163, 179, -179, -147, -101, -62, -8, 36>>
Rad(t, in, mr) == HullRadius(outs, ctr[1], ctr[2], Deg(t), in, mr)
Ask(h, t, mr) ==
    LET o == Rad(t, FALSE, mr)  i == Rad(t, TRUE, mr)
        r(j) == <<RMul(Half, i), RMul(Half, RAdd(i, o)), RMul(R("1.3"), o), RAdd(o, R("4"))>>[j]
    IN  Flat([j \in 1..4 |-> << [op |-> "q.dist", h |-> h, v |-> At(ctr, t, r(j))], [op |-> "q.inside", h |-> h, v |-> At(ctr, t, r(j))],
                                [op |-> "agent.set_position", h |-> "a1", v |-> At(ctr, t, r(j))], [op |-> "q.normal", h |-> h, a |-> "a1"] >>])
Members_ == [j \in DOMAIN mem |-> Hn(j)]
Path(v) == << [op |-> "agent.path", h |-> "a1", v |-> v, l |-> <<"G1">>], [op |-> "agent.path", h |-> "a1", v |-> v, l |-> <<"far", "G1">>] >>
Build == Flat([j \in DOMAIN mem |->
        << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> mem[j].pos, q |-> mem[j].ori, lin |-> V0, ang |-> V0],
           [op |-> "ell.new", h |-> Hn(j), kind |-> "state", name |-> Nm(j), s |-> "S1", m3 |-> mem[j].marg],
           [op |-> "o.set_axis", h |-> Hn(j), v |-> mem[j].axis] >>])
    \o << [op |-> "ell.new", h |-> "far", kind |-> "xyz", name |-> "hen", v |-> At(ctr, 20, R("9"))],
          [op |-> "agent.new", h |-> "a1", kind |-> "def"] >>
Leaf(w) == /\ g = 0 /\ g' = w /\ UNCHANGED <<sc, mem, outs, ctr>>
           /\ LET mr == IF w = 1 THEN Half ELSE R(sc[6])
                  h == IF w = 1 THEN "G1" ELSE "H1"
              IN  op' = <<[op |-> "reset", nohull |-> (w > 1)]>> \o Build
                   \o (CASE w = 1 -> <<[op |-> "agg.new", h |-> "G1", mem |-> Members_]>>
                         [] w = 2 -> <<[op |-> "hull.new", h |-> "H1", mem |-> Members_, inside |-> FALSE, res |-> 500, minr |-> mr]>>
                         [] OTHER -> <<[op |-> "hull.new", h |-> "H1", mem |-> Members_, inside |-> TRUE, res |-> 500, minr |-> mr]>>)
                   \o <<[op |-> "q.closed", h |-> h]>> \o Flat([j \in DOMAIN Bears |-> Ask(h, Bears[j], mr)])
                   \o (IF w = 1 THEN << [op |-> "agent.set_position", h |-> "a1", v |-> At(ctr, 40, R("0.2"))] >> \o Path(At(ctr, 100, R("0.3"))) \o Path(At(ctr, 20, R("9.1")))
                                     \o Path(At(ctr, -120, R("14"))) \o << [op |-> "agent.set_position", h |-> "a1", v |-> At(ctr, 20, R("9.1"))] >> \o Path(At(ctr, 100, R("0.3")))
                                     \o Path(At(ctr, -120, R("14")))
                       ELSE <<>>)
Next == \E w \in Kinds : Leaf(w)
Spec == Init /\ [][Next]_vars
Written == Emit("SEG", op')
view == <<sc, g>>
-----------------------------------------------------------------------------
(* theorems (of the group alone: checked where nothing is asked yet)        *)
All(P(_)) == g = 0 => \A k \in 0..23 : P(k * 15)
\* the surfaces: never below the minimum radius, the inner one never outside the outer one, each on an outline or at the minimum
Surfaces == All(LAMBDA t : LET o == Rad(t, FALSE, Half)  i == Rad(t, TRUE, Half)
                               on(r) == \E j \in DOMAIN outs : LET p == At(ctr, t, r) IN Near(Level(outs[j], p[1], p[2]), One, R("1e-8"))
                           IN  RLe(Half, i) /\ RLe(i, o) /\ (i = Half \/ on(i)) /\ (o = Half \/ on(o)))
\* nothing of a member lies beyond the outer surface, nothing of its boundary before the inner one
Beyond == All(LAMBDA t : LET o == Rad(t, FALSE, Half)  i == Rad(t, TRUE, Half)
                         IN  \A n \in 1..30 : LET r == RMul(R("0.25"), RInt(n))  p == At(ctr, t, r)
                                              IN  RGt(r, RMul(o, R("1.0001"))) => \A j \in DOMAIN outs : RGe(Level(outs[j], p[1], p[2]), One))
\* a smaller minimum radius changes nothing but the minimum
Minimum == All(LAMBDA t : \A in \in BOOLEAN : LET a == Rad(t, in, R("0.1"))  b == Rad(t, in, Half)
                                              IN  b = IF RLe(R("0.1"), a) /\ RGt(a, R("0.1")) THEN RMax(a, Half) ELSE Half)
\* the order of members does not matter, turning the group about its centre turns the surface
Order == All(LAMBDA t : \A in \in BOOLEAN : LET n == Len(outs) IN HullRadius([j \in 1..n |-> outs[n + 1 - j]], ctr[1], ctr[2], Deg(t), in, Half) = Rad(t, in, Half))
Spun == All(LAMBDA t : \A in \in BOOLEAN :
    LET q(o) == LET x == RSub(o.cx, ctr[1])  y == RSub(o.cy, ctr[2])
                IN  [o EXCEPT !.cx = RSub(ctr[1], y), !.cy = RAdd(ctr[2], x), !.c = RNeg(o.s), !.s = o.c]
        a == HullRadius([j \in DOMAIN outs |-> q(outs[j])], ctr[1], ctr[2], Deg(t + 90), in, Half)
        b == Rad(t, in, Half)
        \* unless the ray just touches an outline
        edge == \E j \in DOMAIN outs : RLt(RAbs(RSub(LineCoef(outs[j], ctr[1], ctr[2], RAdd(ctr[1], RCos(Deg(t))), RAdd(ctr[2], RSin(Deg(t)))).h, One)), R("1e-6"))
    IN  edge \/ Near(a, b, R("1e-7")))
\* rings are closed, open rings are not
Rings == g = 0 => LET c == HullClosed(outs, ctr[1], ctr[2], FALSE, Half, 500)
                  IN  (sc[1] = "ring" => c = "yes") /\ (c = "yes" => sc[1] # "open" \/ \A k \in 0..71 : RGt(Rad(k * 5, FALSE, Half), RMul(R("1.2"), Half)))
=============================================================================
