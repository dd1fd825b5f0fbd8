------------------------------- MODULE Plots -------------------------------
(* Drawings and the figure protocol, as predicates over the recorded        *)
(* sequence of plotting calls [fn, args, kw].                               *)
EXTENDS DOA
IsPlot(c)      == c.fn = "plot" /\ Len(c.args) = 3
Fmt(c)         == c.args[3]
Curves(calls, fmt) == {j \in DOMAIN calls : IsPlot(calls[j]) /\ Fmt(calls[j]) = fmt /\ Len(calls[j].args[1]) > 5}
PointAt(calls, x, y) == \E j \in DOMAIN calls : /\ IsPlot(calls[j])
                                                /\ Len(calls[j].args[1]) = 1 /\ Len(calls[j].args[2]) = 1
                                                /\ Near(calls[j].args[1][1], x, Tol) /\ Near(calls[j].args[2][1], y, Tol)
MarkAt(calls, x, y, fmt) == \E j \in DOMAIN calls : /\ IsPlot(calls[j]) /\ Fmt(calls[j]) = fmt
                                                    /\ Len(calls[j].args[1]) = 1 /\ Len(calls[j].args[2]) = 1
                                                    /\ Near(calls[j].args[1][1], x, Tol) /\ Near(calls[j].args[2][1], y, Tol)
TextAt(calls, x, y, s) == \E j \in DOMAIN calls : /\ calls[j].fn = "text" /\ Len(calls[j].args) = 3
                                                  /\ Near(calls[j].args[1], x, Tol) /\ Near(calls[j].args[2], y, Tol)
                                                  /\ calls[j].args[3] = s
Third(axis) == IF axis = "xy" THEN 2 ELSE 3       \* coordinate drawn upwards
\* outline of an ellipsoid in the plane of the drawing
PanelOutline(o, axis, withMargin) ==
    IF axis = "xy" THEN Outline(o, withMargin)
    ELSE [cx |-> o.pos[1], cy |-> o.pos[3], z |-> o.pos[2], c |-> One, s |-> Zero,
          a |-> IF withMargin THEN RAdd(o.axis[1], o.marg[1]) ELSE o.axis[1],
          b |-> IF withMargin THEN RAdd(o.axis[3], o.marg[3]) ELSE o.axis[3]]
Judged(o, axis) == /\ Proper(PanelOutline(o, axis, FALSE))
                   /\ IF axis = "xy" THEN IsPlanar(o) ELSE RLe(RAbs(o.ori[2]), R("1e-9")) /\ RLe(RAbs(o.ori[3]), R("1e-9")) /\ RLe(RAbs(o.ori[4]), R("1e-9"))
TurnOf(ang) == \* total turn and largest step of a sequence of angles
    LET n == Len(ang)
        st == [j \in 1..(n - 1) |-> LET d == RSub(ang[j + 1], ang[j])
                                    IN  IF RGt(d, Pi) THEN RSub(d, RMul(Two, Pi)) ELSE IF RLt(d, RNeg(Pi)) THEN RAdd(d, RMul(Two, Pi)) ELSE d]
    IN  [total |-> RAbs(RSum(st)), small |-> \A j \in 1..(n - 1) : RLt(RAbs(st[j]), Half)]
\* a closed curve on the outline e that goes around it
FollowsOutline(xs, ys, e) ==
    LET n == Len(xs)
        on == \A j \in 1..n : Near(Level(e, xs[j], ys[j]), One, R("1e-6"))
        t == TurnOf([j \in 1..n |-> RAtan2(RDiv(LocY(e, xs[j], ys[j]), e.b), RDiv(LocX(e, xs[j], ys[j]), e.a))])
    IN  /\ n > 5 /\ Len(ys) = n /\ on
        /\ RLe(Hyp(RSub(xs[1], xs[n]), RSub(ys[1], ys[n])), RMul(R("1e-6"), RAdd(RAdd(One, RAdd(RAbs(e.cx), RAbs(e.cy))), RMax(e.a, e.b))))
        /\ Near(t.total, RMul(Two, Pi), R("1e-4")) /\ t.small
Follows(c, e) == FollowsOutline(c.args[1], c.args[2], e)
EllipsoidDrawn(calls, o, color, axis) ==
    LET x == o.pos[1]  y == o.pos[Third(axis)]
    IN  /\ Judged(o, axis) =>
              /\ \E j \in Curves(calls, SCat(color, "-")) : Follows(calls[j], PanelOutline(o, axis, FALSE))
              /\ \E j \in Curves(calls, SCat(color, "--")) : Follows(calls[j], PanelOutline(o, axis, TRUE))
        /\ IF o.name = "" THEN MarkAt(calls, x, y, SCat(color, "o")) ELSE TextAt(calls, x, y, o.name)
        /\ MarkAt(calls, o.ref[1], o.ref[Third(axis)], SCat(color, "x"))
\* a curve that follows a hull surface
FollowsHull(c, hu, inside) ==
    LET xs == c.args[1]  ys == c.args[2]
        n == Len(xs)
        outs == HullOuts(hu)
        pol(j) == Polar(hu.c, <<xs[j], ys[j]>>)
        ok(j) == LET b == HullBounds(outs, hu.c[1], hu.c[2], pol(j).t, inside, hu.minr, hu.n) IN Within(pol(j).r, b.lo, b.hi)
        t == TurnOf([j \in 1..n |-> RAtan2(RSub(ys[j], hu.c[2]), RSub(xs[j], hu.c[1]))])
    IN  n > 50 /\ Len(ys) = n /\ (\A k \in 0..(n \div 9) : 9 * k + 1 <= n => ok(9 * k + 1))
        /\ RGt(t.total, R("6.2")) /\ RLt(t.total, R("6.3")) /\ t.small
\* seen from the side a hull surface is a level line through its centre
LevelCurve(c, hu) == /\ Len(c.args[1]) > 50 /\ Len(c.args[2]) = Len(c.args[1])
                     /\ \A j \in DOMAIN c.args[2] : Near(c.args[2][j], hu.c[3], Tol)
                     /\ (\E j \in DOMAIN c.args[1] : RLe(c.args[1][j], hu.c[1])) /\ (\E j \in DOMAIN c.args[1] : RLe(hu.c[1], c.args[1][j]))
AggregateDrawn(calls, st, hull, h, color, axis) ==
    LET g == st[h]
    IN  /\ \A j \in DOMAIN g.mem : EllipsoidDrawn(calls, st[g.mem[j]], color, axis)
        /\ \E f \in {"bx", "gx", "rx", "cx", "mx", "yx", "kx"} : MarkAt(calls, g.ref[1], g.ref[Third(axis)], f)
        /\ h \in DOMAIN hull =>
              IF axis = "xy" THEN \A inside \in BOOLEAN : \E j \in Curves(calls, "k--") : FollowsHull(calls[j], hull[h], inside)
              ELSE Cardinality({j \in Curves(calls, "k--") : LevelCurve(calls[j], hull[h])}) >= 2
DrawOK(calls, st, hull, h, color, axis) ==
    CASE st[h].type = "Ellipsoid" -> EllipsoidDrawn(calls, st[h], color, axis)
      [] st[h].type = "Aggregate" -> AggregateDrawn(calls, st, hull, h, color, axis)
      [] OTHER -> TRUE
-----------------------------------------------------------------------------
(* figures                                                                  *)
Colours == <<"b", "g", "r", "c", "m", "y">>
ColourOf(j) == Colours[((j - 1) % 6) + 1]
ObstaclesOK(calls, st, l, axis) ==
    LET each(j) == IF IsAggregate(st[l[j]]) THEN {st[l[j]].mem[m] : m \in DOMAIN st[l[j]].mem} ELSE {l[j]}
        solid == UNION {Curves(calls, SCat(c, "-")) : c \in {Colours[j] : j \in 1..6}}
        drawn == {<<j, m>> \in (DOMAIN l) \X (DOMAIN st) : m \in each(j)}
        \* the solid curve of every ellipsoid of the list appears once, in the colour of its position
        once(p) == LET o == st[p[2]]
                       e == PanelOutline(o, axis, FALSE)
                   IN  Judged(o, axis) => Cardinality({j \in Curves(calls, SCat(ColourOf(p[1]), "-")) : Follows(calls[j], e)}) = 1
    IN  /\ Cardinality(solid) = Cardinality(drawn)
        /\ \A p \in drawn : once(p)
        /\ \A p \in drawn : axis = "xy" => EllipsoidDrawn(calls, st[p[2]], ColourOf(p[1]), axis)
AgentPlotOK(calls, ag, axis, color) == MarkAt(calls, ag.pos[1], ag.pos[Third(axis)], SCat(color, "o"))
AgentShown(calls, ag, axis) == PointAt(calls, ag.pos[1], ag.pos[Third(axis)])
TrajPlotOK(calls, goal, hist, axis) ==
    /\ PointAt(calls, goal[1], goal[Third(axis)])
    /\ \E j \in DOMAIN calls :
          /\ IsPlot(calls[j]) /\ Len(calls[j].args[1]) = Len(hist) /\ Len(calls[j].args[2]) = Len(hist)
          /\ \A m \in DOMAIN hist : Near(calls[j].args[1][m], hist[m][1], Tol) /\ Near(calls[j].args[2][m], hist[m][Third(axis)], Tol)
Count(calls, fn) == Cardinality({j \in DOMAIN calls : calls[j].fn = fn})
DrawingCalls == {"plot", "text", "subplot", "xlim", "ylim", "fill", "scatter", "annotate", "title"}
FigureOK(ev, st) ==
    LET calls == ev.r
        a == ev.a
        n == Len(calls)
        l == IF Has(a, "env") THEN st[a.env].list ELSE a.l
        subs == {j \in 1..n : calls[j].fn = "subplot"}
        first == CHOOSE j \in subs : \A m \in subs : j <= m
        second == CHOOSE j \in subs : \A m \in subs : m <= j
        drawings == {j \in 1..n : calls[j].fn \in DrawingCalls}
        panel(c, axis) ==
            /\ ObstaclesOK(c, st, l, axis)
            /\ (ev.op = "plot.guard" => AgentShown(c, st[a.a], axis) /\ AgentShown(c, st[a.b], axis))
            /\ ((ev.op = "plot.config" /\ Has(a, "a")) => AgentShown(c, st[a.a], axis))
            /\ (Has(a, "a") => TrajPlotOK(c, a.goal, a.hist, axis))
        saves == {j \in 1..n : calls[j].fn = "save"}
        shows == {j \in 1..n : calls[j].fn = "show"}
    IN  /\ n > 1 /\ calls[1].fn = "figure" /\ Count(calls, "figure") = 1
        /\ calls[n].fn = "close" /\ Count(calls, "close") = 1
        /\ Cardinality(saves) = (IF a.save # "" THEN 1 ELSE 0)
        /\ \A j \in saves : calls[j].args[1] = SCat("/tmp/", SCat(a.save, ".png"))
        /\ Cardinality(shows) = (IF a.show THEN 1 ELSE 0)
        /\ \A j \in saves \cup shows : \A d \in drawings : d < j
        /\ IF a.td
           THEN /\ Cardinality(subs) = 2
                /\ \A j \in drawings : j >= first
                /\ panel(SubSeq(calls, first + 1, second - 1), "xy")
                /\ panel(SubSeq(calls, second + 1, n), "xz")
           ELSE /\ subs = {}
                /\ panel(calls, IF ev.op = "plot.guard" THEN "xz" ELSE "xy")
=============================================================================
