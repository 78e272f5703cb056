------------------------------ MODULE MC_Iter ------------------------------
(* Exhaustive: every enumerator, every dimension/degree within the bounds.   *)
EXTENDS IndexIter
CONSTANTS MaxDim, MaxDeg
VARIABLES kind, d, n, m, seen, full
vars == <<kind, d, n, m, seen, full>>

MaxN(kk, dd) == IF dd >= 4 THEN Min2(MaxDeg, 3) ELSE IF dd = 3 THEN Min2(MaxDeg, 5) ELSE MaxDeg
Init == /\ kind \in Kinds /\ d \in 1 .. MaxDim /\ n \in 0 .. MaxDeg
        /\ n <= MaxN(kind, d)
        /\ m = [i \in 1 .. d |-> 0] /\ seen = <<m>> /\ full = FALSE
Next == /\ ~full
        /\ LET r == Inc(kind, m, n) IN
             IF r[1] THEN full' = TRUE /\ UNCHANGED <<m, seen>>
             ELSE m' = r[2] /\ seen' = Append(seen, r[2]) /\ full' = FALSE
        /\ UNCHANGED <<kind, d, n>>
Spec == Init /\ [][Next]_vars

Sound == InSet(kind, n, m) /\ IsNatSeq(m, d)
NoRepeat == Distinct(seen)
NotTooMany == Len(seen) <= Count(kind, d, n)
Complete == full => /\ Range(seen) = SetOf(kind, d, IF kind \in {"cross", "cross_nc"} THEN Max2(n,1) ELSE n)
                    /\ Len(seen) = Count(kind, d, n)
\* nesting: the elements of degree p < n come first
NestedOrder == (full /\ kind \in Nested) =>
  \A p \in 0 .. n : LET c == Count(kind, d, p)
                    IN \A i \in 1 .. Len(seen) : (i <= c) <=> InSet(kind, p, seen[i])
=============================================================================
