------------------------------ MODULE T_Intern ------------------------------
(* Recorded schedules of real processes over the store of compiled           *)
(* integrands (C18).  Expressions are polynomials a + b x + c x^2, given by  *)
(* their coefficients.  comp[e] is what is known about the entry of e:       *)
(* 0 not complete, 1 perhaps complete, 2 complete.                           *)
(* run[p] is the call process p is in: expression (0: none), comp at its     *)
(* start, and how often it has started the compiler.                         *)
EXTENDS TraceBase
W0 == [exprs |-> <<>>, comp |-> <<>>, run |-> <<>>]
Idle == [e |-> 0, at |-> 0, n |-> 0]
Begin == /\ Is("begin")
         /\ ws' = [exprs |-> Ev.exprs, comp |-> [e \in 1 .. Len(Ev.exprs) |-> 0], run |-> [p \in 1 .. Ev.procs |-> Idle]]
Up(e, v) == [ws.comp EXCEPT ![e] = IF @ < v THEN v ELSE @]
\* an incomplete entry lies there
Left == Is("left") /\ ws' = [ws EXCEPT !.comp[Ev.e] = 0]
Start == /\ Is("start") /\ ws.run[Ev.p].e = 0
         /\ ws' = [ws EXCEPT !.run[Ev.p] = [e |-> Ev.e, at |-> ws.comp[Ev.e], n |-> 0]]
\* only what is not known to be complete is compiled
Compile == /\ Is("compile") /\ ws.run[Ev.p].e # 0 /\ ws.run[Ev.p].at # 2
           /\ ws' = [ws EXCEPT !.run[Ev.p].n = @ + 1]
Half == Is("half") /\ UNCHANGED ws
Full == Is("full") /\ ws' = [ws EXCEPT !.comp = Up(Ev.e, 1)]
Kill == Is("kill") /\ ws' = [ws EXCEPT !.run[Ev.p] = Idle]
Value(e, x) == SumOver(1 .. Len(ws.exprs[e]), LAMBDA i : ws.exprs[e][i] * Pow(x, i - 1))
\* the answer is that of the own expression; without compiling only if it may have been there
Answer(e) == Chk(Len(Ev.vals) = Len(Ev.nodes) /\ \A i \in 1 .. Len(Ev.nodes) : Ev.vals[i] = Value(e, Ev.nodes[i]))
Finish == /\ Is("done")
          /\ LET r == ws.run[Ev.p] IN r.e # 0 /\ Answer(r.e) /\ (r.n = 0 => r.at > 0)
          /\ ws' = [ws EXCEPT !.comp = Up(ws.run[Ev.p].e, 2), !.run[Ev.p] = Idle]
\* processes left to themselves: only the answers are judged
Free == /\ Is("free") /\ Answer(Ev.e) /\ ws' = [ws EXCEPT !.comp = Up(Ev.e, 2)]
Init == TInit(W0)
Step == Begin \/ Left \/ Start \/ Compile \/ Half \/ Full \/ Kill \/ Finish \/ Free
Next == (Step /\ Advance) \/ Done
=============================================================================
