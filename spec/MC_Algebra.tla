----------------------------- MODULE MC_Algebra -----------------------------
(* Programs over registers of small series and matrices: every reachable     *)
(* object is well formed, and the laws of the algebra hold between them.     *)
EXTENDS Algebra
CONSTANTS KindSet, Deg, Steps, Labels
VARIABLES kind, regs, n
vars == <<kind, regs, n>>
Data == [mean |-> 0, var |-> 1, type |-> 0]
Lst(k, d, g) == SetToSeq(SetOf(k, d, g))
Sp1(x, k, f) == [dirs |-> <<x>>, at |-> <<Data>>, diag |-> TRUE, kind |-> k, deg |-> Deg, fac |-> <<f>>]
Vecs == { BuildV(Sp1(x, kind, x), Lst(kind, 1, Deg), LAMBDA m : v[m[1]]) : x \in Labels, v \in [0 .. Deg -> {-1, 2}] }
Mats == { BuildM(Sp1(x, kind, x), Lst(kind, 1, Deg), LAMBDA m, p : v[<<m[1], p[1]>>]) :
          x \in Labels, v \in [(0 .. Deg) \X (0 .. Deg) -> {0, 1}] }
ListFor(sp) == IF Dim(sp) = 0 THEN << <<>> >> ELSE Lst(sp.kind, Dim(sp), sp.deg)
AddObj(a, b) == IF a.k = 0 THEN BuildV(a.sp, a.list, LAMBDA m : AddV(a, b, 1, m))
                ELSE BuildM(a.sp, a.list, LAMBDA m, p : AddM(a, b, 1, m, p))
MulObj(a, b) == LET sp == MulSp(a, b) IN IF a.k = 0 THEN BuildV(sp, ListFor(sp), LAMBDA m : MulV(a, b, sp, m))
                ELSE BuildM(sp, ListFor(sp), LAMBDA m, p : MulM(a, b, sp, m, p))
ApplyObj(a, u) == BuildV([u.sp EXCEPT !.fac = a.sp.fac], a.list, LAMBDA m : ApplyAt(a, u, m))
CrossObj(a, g) == IF a.k = 0 THEN BuildV(CrossSp(a, g), ListFor(CrossSp(a, g)), LAMBDA m : VAt(a, m))
                  ELSE BuildM(CrossSp(a, g), ListFor(CrossSp(a, g)), LAMBDA m, p : MAt(a, m, p))
Init == kind \in KindSet /\ regs = {} /\ n = 0
Create == \E x \in Vecs \cup Mats : regs' = regs \cup {x}
AddS == \E a, b \in regs : CanAdd(a, b) /\ regs' = (regs \ {a, b}) \cup {AddObj(a, b)}
MulS == \E a, b \in regs : CanMul(a, b) /\ regs' = (regs \ {a, b}) \cup {MulObj(a, b)}
ApplyS == \E a, b \in regs : CanApply(a, b) /\ regs' = (regs \ {b}) \cup {ApplyObj(a, b)}
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED kind /\ (Create \/ AddS \/ MulS \/ ApplyS)
Spec == Init /\ [][Next]_vars
WellFormed == \A x \in regs : /\ Len(x.list) = Cardinality(DOMAIN x.ix) /\ Len(x.c) = Len(x.list) /\ Len(x.sp.fac) = Dim(x.sp)
                              /\ x.k = 1 => \A i \in 1 .. Len(x.c) : Len(x.c[i]) = Len(x.list)
                              /\ ListOf(x.sp, x.list)
\* (A + B) u = A u + B u and A (u + v) = A u + A v
Linear == \A a, b \in regs : \A u \in regs :
   /\ CanAdd(a, b) /\ CanApply(a, u) => EqualObj(ApplyObj(AddObj(a, b), u), AddObj(ApplyObj(a, u), ApplyObj(b, u)))
   /\ a.k = 1 /\ b.k = 0 /\ CanApply(a, b) /\ CanAdd(b, u) => EqualObj(ApplyObj(a, AddObj(b, u)), AddObj(ApplyObj(a, b), ApplyObj(a, u)))
\* products are bilinear and commute
Bilinear == \A a, b \in regs : CanMul(a, b) => /\ CanMul(b, a) /\ EqualObj(MulObj(a, b), MulObj(b, a))
             /\ \A u \in regs : CanAdd(b, u) => EqualObj(MulObj(a, AddObj(b, u)), AddObj(MulObj(a, b), MulObj(a, u)))
\* on the cube, (A x B)(u x v) = A u x B v
Tensored == kind = "cube" => \A a, b \in regs : \A u, v \in regs :
   a.k = 1 /\ b.k = 1 /\ CanMul(a, b) /\ CanApply(a, u) /\ CanApply(b, v) /\ CanMul(u, v)
     => EqualObj(ApplyObj(MulObj(a, b), MulObj(u, v)), MulObj(ApplyObj(a, u), ApplyObj(b, v)))
\* restricting to the cross set commutes with sums
Restricts == \A a, b \in regs : \A g \in 0 .. Deg : CanAdd(a, b) /\ CanCross(a, g) =>
   EqualObj(CrossObj(AddObj(a, b), g), AddObj(CrossObj(a, g), CrossObj(b, g)))
=============================================================================
