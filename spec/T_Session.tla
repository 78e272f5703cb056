----------------------------- MODULE T_Session -----------------------------
(* Recorded sessions that mix valid and invalid requests in one process      *)
(* (C22).  ws: the settings of the process, which no request may change, and *)
(* how many requests were refused so far.                                    *)
(*   req : a request over arrays; the specification decides whether it is    *)
(*         valid, and what the answer looks like                             *)
(*   bad : a request from the catalogue of invalid requests                  *)
(*   good: the integral of a monomial with exponents k against the standard  *)
(*         Gaussian, through expression, compilation and quadrature          *)
EXTENDS Requests, TraceBase
W0 == [st |-> "", refused |-> 0]
Begin == Is("begin") /\ ws' = [ws EXCEPT !.st = Ev.st]
Kept == Ev.st = ws.st
Refuse == ws' = [ws EXCEPT !.refused = @ + 1]
Req == /\ Is("req") /\ Kept
       /\ LET v == Verdict(Ev.r) IN
            CASE v = "ok"  -> Ev.raised = 0 /\ Chk(AnswerOK(Ev.r, Ev.shape, Ev.sum)) /\ UNCHANGED ws
              [] v = "bad" -> Ev.raised = 1 /\ Refuse
              [] v = "any" -> IF Ev.raised = 1 THEN Refuse ELSE UNCHANGED ws
BadReq == Is("bad") /\ Kept /\ Ev.raised = 1 /\ Refuse
RECURSIVE Moment(_)
Moment(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 0 ELSE (k - 1) * Moment(k - 2)
Good == /\ Is("good") /\ Kept /\ Ev.raised = 0
        /\ Ev.res = ProdSeq([i \in DOMAIN Ev.k |-> Moment(Ev.k[i])])
        /\ UNCHANGED ws
Init == TInit(W0)
Step == Begin \/ Req \/ BadReq \/ Good
Next == (Step /\ Advance) \/ Done
=============================================================================
