------------------------------- MODULE Stats -------------------------------
(* Accounting of calls.  stack holds the calls in progress, [f, t0]; clk is  *)
(* the time; for every function, n[f] completed calls and their total time   *)
(* d[f].  A call ends by returning or by an exception; only the former is a  *)
(* completed call.                                                           *)
EXTENDS Num
S0(F) == [stack |-> <<>>, clk |-> 0, n |-> [f \in F |-> 0], d |-> [f \in F |-> 0]]
Depth(s) == Len(s.stack)
Enter(s, f) == [s EXCEPT !.stack = Append(@, [f |-> f, t0 |-> s.clk])]
Tick(s, k) == [s EXCEPT !.clk = @ + k]
Top(s) == s.stack[Len(s.stack)]
Leave(s) == [s EXCEPT !.stack = Front(@)]
Return(s) == LET t == Top(s) IN [Leave(s) EXCEPT !.n[t.f] = @ + 1, !.d[t.f] = @ + s.clk - t.t0]
Throw(s) == Leave(s)
=============================================================================
