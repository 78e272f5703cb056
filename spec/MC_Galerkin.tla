---------------------------- MODULE MC_Galerkin ----------------------------
(* Laws of the specification of the spaces, checked by TLC on every choice   *)
(* of the parameters below: the tables of multiplication and differentiation *)
(* are those of the polynomials (trigonometric functions) they stand for.    *)
EXTENDS Galerkin
CONSTANTS N, A, KMax, PMax
VARIABLE s
Half == [t : {"h"}, mu : {0, 1, -2}, sg : {1, 2}]
States == [what : {"h"}, dr : Half, a : 0 .. A, k : 0 .. KMax, j : 0 .. N]
          \cup [what : {"f"}, fac : {"c", "s"}, p : 0 .. PMax, k : 0 .. KMax, j : 0 .. N]
Init == s \in States
Next == UNCHANGED s

\* He_j^(k) = falling(j, k) He_(j-k)
DHe(j, k) == IF k > j THEN 0 ELSE Falling(j, k)
Pts == {-2, -1, 0, 1, 3}
\* x^a d^k He_j at xi equals the sum of the column at xi
HermiteOk == s.what = "h" =>
  \A xi \in Pts :
     LET M == Max2(N, s.j) + s.a
         col == HCol(s.dr.mu, s.dr.sg, s.a, s.k, s.j, N)
         h == HeSeq(xi, M)
         lhs == Pow(s.dr.mu + s.dr.sg * xi, s.a) * DHe(s.j, s.k) * (IF s.k > s.j THEN 0 ELSE h[s.j - s.k + 1])
     IN lhs = SumSeq([i \in 1 .. M + 1 |-> col[i - 1] * h[i]])
\* the same with trigonometric functions at the angles of the grids
TrigD(unit, j, k, x) == LET w == (j + 1) \div 2
                            s0 == IF j % 2 = 1 THEN 0 ELSE 1
                            q == (s0 + k) % 4
                            v == IF q % 2 = 1 THEN TrigAt(unit, 2 * w, x) ELSE TrigAt(unit, 2 * w - 1, x)
                        IN IF j = 0 THEN (IF k = 0 THEN 1 ELSE 0)
                           ELSE Pow(w, k) * (IF q \in {0, 1} THEN v ELSE -v)
FourierOk == s.what = "f" =>
  \A x \in 0 .. 3 :
     LET f == IF s.p = 0 THEN (IF s.fac = "c" THEN 1 ELSE 0)
              ELSE TrigAt("q", IF s.fac = "c" THEN 2 * s.p ELSE 2 * s.p - 1, x)
         M == N + 2 * s.p + 2
     IN 2 * f * TrigD("q", s.j, s.k, x) = SumSeq([i \in 1 .. M + 1 |-> FEntry(s.fac, s.p, s.k, i - 1, s.j) * TrigAt("q", i - 1, x)])
\* the two grids of angles agree where they meet (multiples of pi)
GridsOk == s.what = "f" => \A x \in 0 .. 3 : s.j > 0 /\ s.j % 2 = 0 => TrigAt("t", s.j, 3 * x) = 2 * TrigAt("q", s.j, 2 * x)
\* products of two basis functions are commutative, and are the products
ProductOk ==
  IF s.what = "h"
  THEN \A i \in 0 .. N : LET l == HLinear(i, s.j) IN
         /\ l = HLinear(s.j, i)
         /\ \A xi \in Pts : LET h == HeSeq(xi, i + s.j) IN
              h[i + 1] * h[s.j + 1] = SumSeq([k \in 1 .. i + s.j + 1 |-> l[k - 1] * h[k]])
  ELSE \A i \in 0 .. N : \A k \in 0 .. 2 * N + 2 : FLinear(i, s.j, k) = FLinear(s.j, i, k)
=============================================================================
