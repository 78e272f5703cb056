------------------------------ MODULE MC_Weyl ------------------------------
(* Laws of the specification of differential operators, checked by TLC on    *)
(* every choice of up to three operators from a small family.                *)
EXTENDS Weyl
CONSTANT D
VARIABLE s
Exps == { a \in [1 .. D -> 0 .. 2] : SumSeq(a) <= 2 }
Ords == { k \in [1 .. D -> 0 .. 2] : SumSeq(k) <= 2 }
Monos == { WMono(c, a, k) : c \in {1, -2}, a \in Exps, k \in Ords }
Ops == Monos \cup { WAdd(WMono(1, Unit(D, 1), Zeros(D)), WMono(3, Zeros(D), Unit(D, D))), WZero }
Few == { WD(D, 1), WX(D, 1), WX(D, D), WD(D, D), WAdd(WMul(WX(D, 1), WD(D, D)), WOne(D)) }
Funs == { WMono(1, a, Zeros(D)) : a \in { e \in [1 .. D -> 0 .. 3] : SumSeq(e) <= 3 } }
Quads == { WMono(1, Unit(D, 1), Zeros(D)),
           WAdd(WMono(2, [i \in 1 .. D |-> IF i = D THEN 2 ELSE 0], Zeros(D)), WMono(1, Unit(D, 1), Zeros(D))),
           WMono(1, [i \in 1 .. D |-> 1], Zeros(D)) }
Init == s \in [a : Ops, b : Few, c : Few]
Next == UNCHANGED s
Action == \A u \in Funs : WApply(WMul(s.a, s.b), u) = WApply(s.a, WApply(s.b, u))
Assoc == WMul(WMul(s.a, s.b), s.c) = WMul(s.a, WMul(s.b, s.c))
Distr == WMul(WAdd(s.a, s.b), s.c) = WAdd(WMul(s.a, s.c), WMul(s.b, s.c))
Adjoint == WAdj(D, WMul(s.a, s.b)) = WMul(WAdj(D, s.b), WAdj(D, s.a)) /\ WAdj(D, WAdj(D, s.a)) = s.a
\* conjugation is an algebra map, undone by the inverse factor, additive in the exponent
Conj == \A q \in Quads :
   LET cj(x) == IF x = WZero THEN WZero ELSE WConjExp(x, q)
   IN /\ cj(WMul(s.a, s.b)) = WMul(cj(s.a), cj(s.b))
      /\ (IF s.a = WZero THEN TRUE ELSE WConjExp(WConjExp(s.a, q), WNeg(q)) = s.a)
Terms == WFromTerms(WTerms(s.a)) = s.a
=============================================================================
