---------------------------- MODULE FigureModel ----------------------------
(* The figure protocol as a state machine: a figure is opened, its panels   *)
(* are drawn, it is saved and shown if asked to, and closed.  The calls of  *)
(* every run pass the judgement, every run with a call left out, repeated   *)
(* or moved fails it, and every configuration is plotted by the library.    *)
EXTENDS Canvas
CONSTANTS Lists, Kinds, Hists, Files
VARIABLES cf, phase, calls, todo
vars == <<cf, phase, calls, todo>>
Deg(n) == RMul(RInt(n), RDiv(Pi, RInt(180)))
Yaw(n) == LET h == RMul(Half, Deg(n)) IN <<RCos(h), Zero, Zero, RSin(h)>>
Obst(n, x, y, z, t, a, b, c, m) == LET p == <<R(x), R(y), R(z)>> IN
    [k |-> "obs", type |-> "Ellipsoid", name |-> n, pos |-> p, ori |-> IF t = 0 THEN QId ELSE Yaw(t), lin |-> V0, ang |-> V0, ref |-> VAdd(p, <<R("0.1"), R("-0.1"), R("0.05")>>),
     marg |-> Three(R(m)), axis |-> <<R(a), R(b), R(c)>>, curv |-> Three(One)]
Agent(x, y, z) == [k |-> "agent", pos |-> <<R(x), R(y), R(z)>>]
All == [ e1 |-> Obst("oak", "1", "2", "0.5", 0, "1", "0.6", "0.4", "0.1"), e2 |-> Obst("", "-3", "1", "0", 40, "1.5", "0.5", "1", "0"),
         e3 |-> Obst("elm", "4", "-2", "-1", 0, "0.3", "2", "0.7", "0.25"), e4 |-> Obst("ash", "0", "-4", "0.2", 110, "0.8", "0.8", "0.8", "0.1"),
         e5 |-> Obst("fir", "-5", "-4", "0", 0, "0.5", "0.9", "1.4", "0"), e6 |-> Obst("yew", "6", "5", "0", 75, "1.1", "0.4", "0.6", "0.2"),
         e7 |-> Obst("fig", "-6", "5", "2", 0, "0.7", "0.6", "1.2", "0.1"), a1 |-> Agent("-7.5", "0.3", "1.1"), a2 |-> Agent("7.5", "-0.6", "-1.7") ]
Hn == {"e1", "e2", "e3", "e4", "e5", "e6", "e7"}
ListOf == << <<>>, <<"e1">>, <<"e2", "e1">>, <<"e1", "e2", "e3">>, <<"e3", "e1", "e2">>, <<"e4", "e5", "e6", "e7", "e1", "e2", "e3">>, <<"e2", "e2">> >>
Goal == <<R("8.5"), R("-1.5"), R("2.5")>>
Hist == << <<>>, << <<R("-7"), R("0.2"), R("0.9")>> >>,
           << <<R("-7"), R("0.2"), R("0.9")>>, <<R("-5"), R("0.6"), R("0.3")>>, <<R("-2"), R("-0.6"), R("0.1")>> >>,
           [j \in 1..9 |-> <<RInt(j), R("0.5"), RMul(R("0.25"), RInt(j))>>] >>
L == ListOf[cf.l]
HasAgent == cf.kind # "plain"
Init == /\ cf \in [l : Lists, kind : Kinds, hist : Hists, save : Files, show : BOOLEAN, td : BOOLEAN]
        /\ (cf.kind = "plain" => cf.hist = CHOOSE x \in Hists : TRUE)
        /\ phase = "new" /\ calls = <<>> /\ todo = <<>>
Fn(name, args) == << [fn |-> name, args |-> args, kw |-> <<>>] >>
Panel(axis) == IdealObstacles(All, L, axis)
               \o (IF HasAgent THEN IdealAgent(All.a1, axis, "b") ELSE <<>>) \o (IF cf.kind = "guard" THEN IdealAgent(All.a2, axis, "g") ELSE <<>>)
               \o (IF HasAgent THEN IdealTrajectory(Goal, Hist[cf.hist], axis) ELSE <<>>)
               \o Fn("xlim", <<R("-10"), R("10")>>) \o Fn("ylim", <<R("-10"), R("10")>>)
Does(c, p) == calls' = Tab(calls \o c) /\ phase' = p /\ UNCHANGED cf
Open == phase = "new" /\ Does(Fn("figure", <<>>), "panel") /\ todo' = IF cf.td THEN <<"xy", "xz">> ELSE IF cf.kind = "guard" THEN <<"xz">> ELSE <<"xy">>
Draw == phase = "panel" /\ todo # <<>>
        /\ Does((IF cf.td THEN Fn("subplot", <<RInt(2), One, RInt(3 - Len(todo))>>) ELSE <<>>) \o Panel(Head(todo)), "panel") /\ todo' = Tail(todo)
Finish == phase = "panel" /\ todo = <<>> /\ Does(<<>>, "drawn") /\ todo' = (IF cf.save # "" THEN <<"save">> ELSE <<>>) \o (IF cf.show THEN <<"show">> ELSE <<>>)
\* saving and showing in either order
Hand == phase = "drawn" /\ \E j \in DOMAIN todo : /\ Does(IF todo[j] = "save" THEN Fn("save", <<SCat("/tmp/", SCat(cf.save, ".png"))>>) ELSE Fn("show", <<>>), "drawn")
                                                  /\ todo' = Without(todo, j)
Close == phase = "drawn" /\ todo = <<>> /\ Does(Fn("close", <<>>), "closed") /\ UNCHANGED todo
Next == Open \/ Draw \/ Finish \/ Hand \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
New(h, x) == << [op |-> "state.new", h |-> "S1", kind |-> "full", v |-> x.pos, q |-> x.ori, lin |-> V0, ang |-> V0],
                [op |-> "ell.new", h |-> h, kind |-> "sref", name |-> x.name, s |-> "S1", ref |-> x.ref, m3 |-> x.marg], [op |-> "o.set_axis", h |-> h, v |-> x.axis] >>
Man(h, x) == << [op |-> "agent.new", h |-> h, kind |-> "def"], [op |-> "agent.set_position", h |-> h, v |-> x.pos] >>
Base == [op |-> IF cf.kind = "guard" THEN "plot.guard" ELSE "plot.config", l |-> L, save |-> cf.save, show |-> cf.show, td |-> cf.td]
Ask == Base @@ (IF HasAgent THEN [a |-> "a1", goal |-> Goal, hist |-> Hist[cf.hist]] ELSE <<>>) @@ (IF cf.kind = "guard" THEN [b |-> "a2"] ELSE <<>>)
Script == <<[op |-> "reset", nohull |-> TRUE]>> \o Join([j \in 1..7 |-> LET h == <<"e1", "e2", "e3", "e4", "e5", "e6", "e7">>[j] IN IF \E m \in DOMAIN L : L[m] = h THEN New(h, All[h]) ELSE <<>>])
          \o (IF HasAgent THEN Man("a1", All.a1) \o Man("a2", All.a2) ELSE <<>>)
          \o << Ask, [op |-> "plot.obstacles", l |-> L, axis |-> IF cf.show THEN "xy" ELSE "xz"] >>
          \o (IF HasAgent THEN << [op |-> "plot.agent", a |-> "a1", axis |-> IF cf.td THEN "xy" ELSE "xz", color |-> "m"],
                                  [op |-> "plot.traj", goal |-> Goal, hist |-> Hist[cf.hist], axis |-> IF cf.show THEN "xz" ELSE "xy"], Ask >> ELSE <<>>)
Written == phase' # "closed" \/ Emit("SEG", Script)
-----------------------------------------------------------------------------
OK(c) == FigureOK([op |-> Base.op, a |-> Ask, r |-> c], All)
Once(fn) == Count(calls, fn) <= 1
Protocol == Once("figure") /\ Once("close") /\ Once("save") /\ Once("show")
Closed == phase = "closed"
Right == Closed => OK(calls)
\* before the end it is not a figure
Early == ~Closed => ~OK(calls)
Structure == {"figure", "close", "save", "show", "subplot"}
Left == Closed => \A j \in DOMAIN calls : calls[j].fn \in Structure => ~OK(Without(calls, j))
Repeated == Closed => \A j \in DOMAIN calls : calls[j].fn \in Structure => ~OK(Twice(calls, j))
\* solid outlines, agents, goals and trajectories are in every panel once
Solids == {SCat(Colours[k], "-") : k \in 1..6}
Curved(j) == IsPlot(calls[j]) /\ Fmt(calls[j]) \in Solids
Agents(j) == IsPlot(calls[j]) /\ Fmt(calls[j]) \in {"bo", "go"} /\ (\E a \in {"a1", "a2"} : REq(calls[j].args[1][1], All[a].pos[1]))
Goals(j) == IsPlot(calls[j]) /\ (Fmt(calls[j]) \in {"k-"} \/ (Fmt(calls[j]) = "rx" /\ REq(calls[j].args[1][1], Goal[1])))
Drawn == Closed => \A j \in DOMAIN calls :
    /\ (Curved(j) \/ Agents(j) \/ Goals(j)) => ~OK(Without(calls, j))
    /\ Curved(j) => ~OK(Twice(calls, j)) /\ ~OK([calls EXCEPT ![j].args[3] = SCat(@, "-")]) /\ ~OK([calls EXCEPT ![j].args[3] = "k-"])
\* the order: saved and shown after drawing, drawn between opening and closing, in the right panel
MovedTo(i, j) == LET c == Without(calls, i) IN SubSeq(c, 1, j - 1) \o <<calls[i]>> \o SubSeq(c, j, Len(c))
Order == Closed =>
    /\ \A j \in DOMAIN calls : calls[j].fn \in {"save", "show"} => /\ \A i \in 1..2 : ~OK(MovedTo(j, i + 1)) \/ Len(calls) <= i + 3
                                                                   /\ ~OK(MovedTo(j, Len(calls)))
    /\ ~OK(MovedTo(1, 2)) /\ ~OK(MovedTo(Len(calls), Len(calls) - 1))
    /\ \A j \in DOMAIN calls : calls[j].fn = "subplot" /\ calls[j].args[3] = Two => ~OK(MovedTo(j, j - 3)) \/ (L = <<>> /\ ~HasAgent)
Ends == <>(phase = "closed")
=============================================================================
