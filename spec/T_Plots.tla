------------------------------ MODULE T_Plots ------------------------------
(* Sessions drawing on several figures (C25).  The state is what every       *)
(* figure shows; an event carries the call, what the figure it drew on shows *)
(* afterwards, and the operands before and after.                            *)
EXTENDS Plots, TraceBase
W0 == <<>>
Drawn == Ev.o
Old == IF Ev.fig <= Len(ws) THEN ws[Ev.fig] ELSE Blank
Set(o) == ws' = IF Ev.fig <= Len(ws) THEN [ws EXCEPT ![Ev.fig] = o] ELSE Append(ws, o)
Kept == Ev.after = Ev.before
\* drawn on the caller's figure and handed back, or shown
Shown == Ev.shown = (IF Ev.own = 1 THEN 1 ELSE 0) /\ (Ev.own = 1 \/ Ev.returned = 1)
\* what is drawn: the values of a times those of the factors
Values(q, a, fs) == FoldLeft(LAMBDA v, f : Times(v, ValsOf(q, f)), ValsOf(q, a), fs)
Titled(vals) == IF Ev.title # "" THEN Ev.title ELSE DefaultTitle(vals)
\* vertical and horizontal lines added by this call
NewV == SubSeq(Drawn.vs, Len(Old.vs) + 1, Len(Drawn.vs))
NewH == SubSeq(Drawn.hs, Len(Old.hs) + 1, Len(Drawn.hs))
Bounded(has, D, mean, sd, d) ==
   /\ IF has THEN Pair(NewV, mean[1], sd[1], d[1]) ELSE NewV = <<>>
   /\ IF has /\ D = 2 THEN Pair(NewH, mean[2], sd[2], d[2]) ELSE NewH = <<>>
Extended(new) ==    \* the figure shows what it showed, the new layers, and the lines
   Drawn = [new EXCEPT !.vs = Old.vs \o NewV, !.hs = Old.hs \o NewH]
Graph(vals, contours) ==
   LET ax == Axes_(Ev.q) D == Len(ax)
       o1 == [Old EXCEPT !.title = Titled(vals)]
   IN IF D = 1 THEN [o1 EXCEPT !.curves = Append(@, CurveOf(ax[1], vals))]
      ELSE LET m == MapOf(ax[1], ax[2], vals)
           IN [o1 EXCEPT !.maps = Append(@, m), !.lines = IF contours THEN Append(@, m) ELSE @]

Plot == /\ Is("plot")
        /\ Chk( /\ Kept /\ Shown
                /\ Ev.a.k = "series" => Len(Ev.a.list) = Count(Ev.a.kind, Len(Ev.q.nodes), Ev.a.deg)
                /\ LET D == Len(Ev.q.nodes)
                   IN Bounded(Ev.bounds = 1, D, IF Ev.bounds = 1 THEN Ev.a.mean ELSE <<>>, IF Ev.bounds = 1 THEN Ev.a.sd ELSE <<>>,
                              IF Ev.bounds = 1 THEN [i \in 1 .. D |-> Ev.a.deg] ELSE <<>>)
                /\ Extended(Graph(Values(Ev.q, Ev.a, Ev.f), Ev.contours > 0)))
        /\ Set(Drawn)
\* one basis function (values times sqrt(m!)), with lines at its own degree in every direction
Basis == /\ Is("hf")
         /\ Chk( /\ Kept /\ Shown
                 /\ LET D == Len(Ev.q.nodes)
                        a == [k |-> "series", list |-> <<Ev.m>>, coeffs |-> <<1>>, deg |-> MaxSeq(Ev.m),
                              mean |-> Ev.q.mean, sd |-> Ev.q.sd]
                    IN /\ Bounded(Ev.bounds = 1, D, Ev.q.mean, Ev.q.sd, Ev.m)
                       /\ Extended(Graph(Values(Ev.q, a, Ev.f), Ev.contours > 0)))
         /\ Set(Drawn)
Stream == /\ Is("stream")
          /\ Chk( /\ Kept /\ Shown
                  /\ LET ax == Axes_(Ev.q)
                     IN Drawn = [Old EXCEPT !.lines = Append(@, Psi(ax[1], ax[2], Values(Ev.q, Ev.a, Ev.f), Values(Ev.q, Ev.b, Ev.f)))])
          /\ Set(Drawn)
Coeffs == /\ Is("coeffs")
          /\ Chk( /\ Kept /\ Shown /\ Len(Ev.list) = Count(Ev.kind, Len(Ev.list[1]), Ev.deg)
                  /\ LET t == IF Ev.title # "" THEN Ev.title ELSE "Coefficients of the Hermite expansion"
                         o == [Old EXCEPT !.title = t]
                     IN IF Len(Ev.list[1]) = 1
                        THEN Drawn = [o EXCEPT !.bars = @ \o [q \in 1 .. Len(Ev.list) |-> <<Ev.list[q][1], Ev.vals[q]>>]]
                        ELSE /\ Len(Drawn.dots) = Len(Old.dots) + 1
                             /\ Drawn = [o EXCEPT !.dots = Append(@, Drawn.dots[Len(Drawn.dots)])]
                             /\ Range(Drawn.dots[Len(Drawn.dots)]) = {<<Ev.list[q][1], Ev.list[q][2], Abs(Ev.vals[q])>> : q \in 1 .. Len(Ev.list)}
                             /\ Len(Drawn.dots[Len(Drawn.dots)]) = Len(Ev.list))
          /\ Set(Drawn)
Matrix == /\ Is("matrix")
          /\ Chk( /\ Kept /\ Shown
                  /\ Len(Drawn.dots) = Len(Old.dots) + 1
                  /\ LET n == Len(Drawn.dots)
                         ls == IF Ev.lines = 1 THEN [k \in 1 .. Ev.deg |-> 100 * DegreeLines(Ev.kind, Ev.dim, Ev.deg)[k]] ELSE <<>>
                     IN /\ Range(Drawn.dots[n]) = DotsOf(Ev.m) /\ Distinct(Drawn.dots[n])
                        /\ NewV = ls /\ NewH = ls
                        /\ Extended([Old EXCEPT !.dots = Append(@, Drawn.dots[n])]))
          /\ Set(Drawn)
\* a refused call leaves the figure and the operands alone
Refused == /\ Is("refused") /\ Chk(Ev.raised = 1 /\ Kept /\ Drawn = Old) /\ Set(Drawn)
\* the other figures at the end of the session
Still == /\ Is("still") /\ Chk(Ev.o = Old) /\ UNCHANGED ws

Init == TInit(W0)
Next == ((Plot \/ Basis \/ Stream \/ Coeffs \/ Matrix \/ Refused \/ Still) /\ Advance) \/ Done
=============================================================================
