------------------------------ MODULE MC_Stats ------------------------------
(* All histories of nested, repeated and failing calls, within bounds; with  *)
(* Emit and -simulate, histories to replay.                                  *)
EXTENDS Stats, Json
CONSTANTS Funs, MaxDepth, MaxLen, Gen
VARIABLES s, ends, hist, exc
vars == <<s, ends, hist, exc>>
\* ends: what the calls so far did: started, returned, thrown; exc: an exception is on its way
Init == s = S0(Funs) /\ ends = [st |-> 0, ret |-> 0, thr |-> 0] /\ hist = <<>> /\ exc = FALSE
H(h) == hist' = Append(hist, h)
Call(f) == /\ ~exc /\ Depth(s) < MaxDepth /\ s' = Enter(s, f) /\ ends' = [ends EXCEPT !.st = @ + 1]
           /\ H([op |-> "call", f |-> f]) /\ UNCHANGED exc
Wait(k) == ~exc /\ s' = Tick(s, k) /\ H([op |-> "tick", k |-> k]) /\ UNCHANGED <<ends, exc>>
Ret == /\ ~exc /\ Depth(s) > 0 /\ s' = Return(s) /\ ends' = [ends EXCEPT !.ret = @ + 1]
       /\ H([op |-> "ret"]) /\ UNCHANGED exc
Raise == /\ Depth(s) > 0 /\ s' = Throw(s) /\ ends' = [ends EXCEPT !.thr = @ + 1]
         /\ H([op |-> "raise"]) /\ exc' = (Depth(s) > 1)
Handle == exc /\ exc' = FALSE /\ H([op |-> "handle"]) /\ UNCHANGED <<s, ends>>
Next == /\ Len(hist) < MaxLen
        /\ (\E f \in Funs : Call(f)) \/ (\E k \in {1, 3} : Wait(k)) \/ Ret \/ Raise \/ Handle
Spec == Init /\ [][Next]_vars
Total == SumOver(Funs, LAMBDA f : s.n[f])
\* every call counted once, when it completes; depth is what is in progress
Balanced == Total = ends.ret /\ Depth(s) = ends.st - ends.ret - ends.thr
\* no function accumulates more time than passed, per call in progress at once
Bounded == \A f \in Funs : s.d[f] <= MaxDepth * s.clk /\ (s.n[f] = 0 => s.d[f] = 0)
Back == ends.st = ends.ret + ends.thr => Depth(s) = 0
View == <<s, ends, exc, Len(hist)>>
Emit == ~Gen \/ Len(hist) < MaxLen \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
