---------------------------- MODULE MC_Requests ----------------------------
(* Sessions of requests over one expansion, valid and invalid: a refused     *)
(* request changes nothing, and what a valid request returns is again a      *)
(* valid argument (the functions of the library compose).                    *)
EXTENDS Requests
CONSTANTS MaxDim, MaxDegree, MaxLen
VARIABLES kind, d, n, deg, len, refused
vars == <<kind, d, n, deg, len, refused>>
Init == kind \in Kinds /\ d \in 1 .. MaxDim /\ deg \in 0 .. MaxDegree /\ n = Count(kind, d, deg) /\ len = 0 /\ refused = 0
Do(r, d2) == /\ len < MaxLen /\ len' = len + 1 /\ UNCHANGED <<kind, deg>>
             /\ IF Verdict(r) = "ok" THEN d' = d2 /\ n' = Shape(r)[1] /\ UNCHANGED refused
                ELSE UNCHANGED <<d, n>> /\ refused' = refused + 1
Shift(k, c) == [i \in 1 .. c |-> k + i - 1]
\* off: size of the second operand relative to the right one
Tens(k, off) == LET p1 == [dirs |-> Shift(0, d), n |-> n, cols |-> -1]
                    p2 == [dirs |-> Shift(d, k), n |-> Count(kind, k, deg) + off, cols |-> -1]
                IN d + k <= MaxDim /\ p2.n > 0 /\ Do([fn |-> "tensor", kind |-> kind, parts |-> <<p1, p2>>], d + k)
Over(k) == LET p1 == [dirs |-> Shift(0, d), n |-> n, cols |-> -1]
           IN d + 1 <= MaxDim /\ Do([fn |-> "tensor", kind |-> kind, parts |-> <<p1, [dirs |-> <<k>>, n |-> deg + 1, cols |-> -1]>>], d + 1)
Proj(ds) == Do([fn |-> "project", kind |-> kind, dim |-> d, n |-> n, cols |-> -1, dirs |-> ds], Len(ds))
Prod(ds, off) == LET r == [fn |-> "inner", kind |-> kind, d1 |-> Shift(0, d), d2 |-> ds, n1 |-> n, n2 |-> Count(kind, Len(ds), deg) + off]
                 IN Out(r) \in 1 .. MaxDim /\ r.n2 > 0 /\ Do(r, Out(r))
Next == \/ \E k \in 1 .. MaxDim, off \in {-1, 0, 1} : Tens(k, off)
        \/ \E k \in 0 .. MaxDim : Over(k)
        \/ \E s \in (SUBSET (0 .. MaxDim)) \ {{}} : Proj(SetToSortSeq(s, LAMBDA a, b : a < b))
        \/ Proj(<<>>) \/ Proj(<<1, 0>>)
        \/ \E s \in (SUBSET (0 .. MaxDim)) \ {{}}, off \in {-1, 0, 1} : Prod(SetToSortSeq(s, LAMBDA a, b : a < b), off)
Spec == Init /\ [][Next]_vars
\* the value in hand is always an expansion of the degree of the session
Valid == n = Count(kind, d, deg) /\ SameSet(kind, DegOf(kind, d, n), deg) /\ d \in 1 .. MaxDim
\* asking for its degree, its series or a projection on all directions is always answered
Usable == /\ Verdict([fn |-> "degree", kind |-> kind, dim |-> d, n |-> n]) = "ok"
          /\ Verdict([fn |-> "series", kind |-> kind, dim |-> d, n |-> n]) = "ok"
          /\ LET r == [fn |-> "project", kind |-> kind, dim |-> d, n |-> n, cols |-> -1, dirs |-> Shift(0, d)]
             IN Verdict(r) = "ok" /\ Shape(r) = <<n>>
\* sizes next to a right one are right for another degree or refused
Tight == \A off \in {-1, 1} : n + off > 0 => (Fits(kind, d, n + off) <=> \E p \in 0 .. MaxDegree + 1 : Count(kind, d, p) = n + off)
=============================================================================
