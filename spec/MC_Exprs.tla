------------------------------ MODULE MC_Exprs ------------------------------
(* FinestCommon is a partition, coarser than both arguments, and finer than  *)
(* every partition that is coarser than both: for all pairs of partitions.   *)
EXTENDS Exprs
CONSTANT N
VARIABLE s
S == 0 .. N
RECURSIVE Parts(_)
Parts(n) == IF n < 0 THEN { {} }
            ELSE UNION { { P \cup {{n}} } \cup { (P \ {b}) \cup { b \cup {n} } : b \in P } : P \in Parts(n - 1) }
All == Parts(N)
Init == s \in All \X All
Next == UNCHANGED s
Fine == LET P == s[1] Q == s[2] R == FinestCommon(P, Q, S)
        IN /\ IsPartition(R, S) /\ Coarser(R, P) /\ Coarser(R, Q)
           /\ \A T \in All : Coarser(T, P) /\ Coarser(T, Q) => Coarser(T, R)
=============================================================================
