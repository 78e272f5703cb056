------------------------------ MODULE T_Stats ------------------------------
(* Recorded histories of instrumented calls (C23).  Every event carries the  *)
(* depth and the statistics read from the library at that moment, relative   *)
(* to the beginning of the session.                                          *)
EXTENDS Stats, TraceBase
W0 == [s |-> S0({}), asked |-> FALSE]
Start == Is("start") /\ ws' = [s |-> S0(1 .. Ev.n), asked |-> FALSE]
\* printing was asked for from now on, or no longer
Ask == Is("ask") /\ ws' = [ws EXCEPT !.asked = (Ev.on = 1)]
Seen(s) == /\ Ev.depth = Depth(s)
           /\ Chk(\A f \in DOMAIN s.n : Ev.calls[f] = s.n[f] /\ Ev.time[f] = s.d[f])
           /\ (~ws.asked => Ev.out = 0)
To(s) == Seen(s) /\ ws' = [ws EXCEPT !.s = s]
\* inside the function: it got the arguments it was given
Call == Is("call") /\ Ev.args = 1 /\ To(Enter(ws.s, Ev.f))
Wait == Is("tick") /\ To(Tick(ws.s, Ev.k))
\* back at the caller: the very same result, or the very same exception
Ret == Is("ret") /\ Ev.same = 1 /\ To(Return(ws.s))
Raise == Is("raise") /\ Ev.same = 1 /\ To(Throw(ws.s))
Same == Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Init == TInit(W0)
Step == Start \/ Ask \/ Call \/ Wait \/ Ret \/ Raise \/ Same
Next == (Step /\ Advance) \/ Done
=============================================================================
