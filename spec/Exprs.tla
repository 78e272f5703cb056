------------------------------- MODULE Exprs -------------------------------
(* Symbolic functions of the package, as sums of terms                       *)
(*   c * prod x_d^e[d] * prod cos(pi x_d)^s[d] * prod 2^(p[d] x_d)           *)
(*     * prod over couplings <<k, d1, .., dn>> of cos(pi x_d1 .. x_dn) ("s") *)
(*       or 2^(x_d1 .. x_dn) ("p")                                           *)
(* e, s, p are indexed by direction + 1 (directions 0 .. 4).  On points with *)
(* non-negative integer coordinates every value is an integer, so the        *)
(* function is represented by its values.  A factor couples the directions   *)
(* it mentions; what can be split is given by the coupling graph.            *)
EXTENDS Num

Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
CoupDirs(m) == { m[i] : i \in 2 .. Len(m) }
CoupAt(m, pt) == LET q == ProdOver(CoupDirs(m), LAMBDA d : pt[d + 1])
                 IN IF m[1] = "s" THEN Sgn(q) ELSE Pow(2, q)
\* the part of a term that lives on the set of directions g (constant left out)
PartAt(t, g, pt) ==
  ProdOver(g, LAMBDA d : Pow(pt[d + 1], t.e[d + 1]) * (IF t.s[d + 1] = 1 THEN Sgn(pt[d + 1]) ELSE 1)
                          * Pow(2, t.p[d + 1] * pt[d + 1]))
  * ProdSeq([i \in 1 .. Len(t.m) |-> IF CoupDirs(t.m[i]) \subseteq g THEN CoupAt(t.m[i], pt) ELSE 1])
TermAt(t, dirs, pt) == t.c * PartAt(t, Range(dirs), pt)
FunAt(ts, dirs, pt) == SumSeq([i \in 1 .. Len(ts) |-> TermAt(ts[i], dirs, pt)])

\* partitions
IsPartition(P, S) == /\ UNION P = S /\ {} \notin P
                     /\ \A a, b \in P : a # b => a \cap b = {}
\* classes of the equivalence generated by the sets of a family: grow to a fixed point
RECURSIVE Grow(_, _)
Grow(F, s) == LET n == s \cup UNION { f \in F : f \cap s # {} } IN IF n = s THEN s ELSE Grow(F, n)
Classes(F, S) == { Grow(F, {d}) : d \in S }
\* the groups a term can be split into
Couplings(t) == { CoupDirs(t.m[i]) : i \in 1 .. Len(t.m) }
Groups(t, dirs) == Classes(Couplings(t), Range(dirs))
Coarser(P, Q) == \A q \in Q : \E p \in P : q \subseteq p
FinestCommon(P, Q, S) == Classes(P \cup Q, S)
=============================================================================
