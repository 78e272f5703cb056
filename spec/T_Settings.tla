----------------------------- MODULE T_Settings -----------------------------
(* Recorded sessions in which the same requests are made under changing      *)
(* settings and per-call options (C15).  ws.st: the settings as the user     *)
(* left them; ws.ref[g]: the value of request g as first observed.  Values   *)
(* are quantised: results of the same request agree up to Ev.tol units, and  *)
(* matrices of polynomial operators are the ones the algebra defines.        *)
EXTENDS Settings, Galerkin, TraceBase
W0 == [st |-> Default, ref |-> <<>>]
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Abs(a[i] - b[i]) <= tol
Set == Is("set") /\ ws' = [ws EXCEPT !.st[Ev.name] = Ev.val] /\ Ev.after = ws'.st
Known(g) == g \in DOMAIN ws.ref
Call == /\ Is("call")
        /\ Ev.raised = 0
        /\ Ev.after = ws.st                 \* the call left the settings alone
        /\ Ev.args = 1                      \* and its array arguments
        /\ Ev.mat = 1 => Ev.issparse = Eff(ws.st, Ev.over, "sparse")
        /\ Known(Ev.g) => Chk(Close(ws.ref[Ev.g], Ev.res, Ev.tol))
        /\ Ev.exact = 1 => Chk(IsMatrix(Ev.sp, Ev.terms, Ev.K, Ev.deg, Ev.list, Ev.m))
        /\ ws' = IF Known(Ev.g) THEN ws ELSE [ws EXCEPT !.ref = (Ev.g :> Ev.res) @@ @]
Init == TInit(W0)
Step == Set \/ Call
Next == (Step /\ Advance) \/ Done
=============================================================================
