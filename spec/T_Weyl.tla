------------------------------- MODULE T_Weyl -------------------------------
(* Programs over differential operators (C13) and the equations (C24).  ws   *)
(* is the sequence of operators built so far, as elements of the algebra.    *)
(* Every result is observed twice: by the library's own splitting, and by    *)
(* its action on test monomials.                                             *)
EXTENDS Weyl, TraceBase
W0 == <<>>
Obs(L) == /\ Chk(WFromTerms(Ev.split) = L)
          /\ Chk(Len(Ev.split) = Cardinality(DOMAIN L))
          /\ Chk(\A i \in 1 .. Len(Ev.tests) :
                   WFromTerms(Ev.tests[i].res) = WApply(L, WMono(1, Ev.tests[i].on, Zeros(Ev.D))))
Push(L) == Obs(L) /\ ws' = Append(ws, L)

New == Is("new") /\ Push(WFromTerms(Ev.terms))
Add == Is("add") /\ Push(WAdd(ws[Ev.a], ws[Ev.b]))
Sub == Is("sub") /\ Push(WSub(ws[Ev.a], ws[Ev.b]))
Neg == Is("neg") /\ Push(WNeg(ws[Ev.a]))
MulF == Is("mulf") /\ Push(WMul(WFromTerms(Ev.f), ws[Ev.a]))
Comp == Is("comp") /\ Push(WMul(ws[Ev.a], ws[Ev.b]))
\* conjugation by the factor exp(-q)
Map == Is("map") /\ Push(IF ws[Ev.a] = WZero THEN WZero ELSE WConjExp(ws[Ev.a], WFromTerms(Ev.q)))
\* action on a function
Call == /\ Is("call")
        /\ Chk(WFromTerms(Ev.res) = WApply(ws[Ev.a], WFromTerms(Ev.f)))
        /\ UNCHANGED ws
\* no operation changes its operands
Again == /\ Is("again") /\ Obs(ws[Ev.a]) /\ UNCHANGED ws
EqOp == /\ Is("eq") /\ Chk(Ev.res = IF ws[Ev.a] = ws[Ev.b] THEN 1 ELSE 0) /\ UNCHANGED ws
Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws
Same == /\ Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws

Init == TInit(W0)
Step == New \/ Add \/ Sub \/ Neg \/ MulF \/ Comp \/ Map \/ Call \/ Again \/ EqOp \/ Refused \/ Same
Next == (Step /\ Advance) \/ Done
=============================================================================
