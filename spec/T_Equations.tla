---------------------------- MODULE T_Equations ----------------------------
(* What the equation builders return (C24), observed by its action on        *)
(* monomials; an operator of order at most 2 is determined by its action on  *)
(* the monomials of degree at most 2.                                        *)
EXTENDS Equations, TraceBase
W0 == 0
ActsOn(L, D, ts) == \A i \in 1 .. Len(ts) : WFromTerms(ts[i].res) = WApply(L, WMono(1, ts[i].on, Zeros(D)))
LowIn(D, ts) == \A k \in [1 .. D -> 0 .. 2] : SumSeq(k) <= 2 => \E i \in 1 .. Len(ts) : ts[i].on = k
Acts(L, D) == ActsOn(L, D, Ev.tests)
AllLow(D) == LowIn(D, Ev.tests)
Eqn == /\ Is("eqn")
       /\ LET D == Dim(Ev.name) L == Built(Ev.name, Ev.p, Ev.S)
          IN /\ Chk(AllLow(D)) /\ Chk(Acts(L, D))
             /\ IsForward(Ev.name) => Chk(Conserves(L, D))
             /\ ~IsForward(Ev.name) => Chk(WApply(L, WOne(D)) = WZero)
             /\ HasGibbs(Ev.name) => Chk(Gibbs(Ev.name, Ev.p, Ev.S))
       /\ UNCHANGED ws
\* the fluxes, one per direction
Fluxes == /\ Is("flux")
          /\ LET D == Dim(Ev.name) L == Gen(Ev.name, Ev.p, Ev.S)
             IN /\ Len(Ev.comps) = D
                /\ Chk(WAdd(Forward(Ev.name, Ev.p, Ev.S), Divergence(L, D)) = WZero)
                /\ \A i \in 1 .. D : Chk(LowIn(D, Ev.comps[i])) /\ Chk(ActsOn(Flux(L, D, i), D, Ev.comps[i]))
          /\ UNCHANGED ws
\* map_operator: conjugation with exp(-q), q an integer polynomial
MapOp == /\ Is("map")
         /\ LET D == Dim(Ev.name) L == WConjExp(Built(Ev.name, Ev.p, Ev.S), WFromTerms(Ev.q))
            IN Chk(AllLow(D)) /\ Chk(Acts(L, D))
         /\ UNCHANGED ws
\* solve_gaussian: the density c exp(-x^T H x / (2 M)), c^2 (2 pi)^D = num / den, is
\* stationary for the operator  sum B_ij x_j d_i + sum A_ij d_i d_j + e  and normalised:
\*   H A H - M B^T H is antisymmetric,  M e = tr(A H),  M^D num / den = det H.
\* The numbers are large: the equations are checked modulo primes.
Primes == {46337, 46327, 46309}
MM(a, b, P) == ((a % P) * (b % P)) % P
SumM(S, Op(_), P) == FoldSet(LAMBDA x, acc : (Op(x) + acc) % P, 0, S)
Hs(D) == [i \in 1 .. D |-> [j \in 1 .. D |-> LET c == WGet(WFromTerms(Ev.Q), <<UU(D, i, j), Zeros(D)>>) IN IF i = j THEN 2 * c ELSE c]]
DetM(h, D, P) ==
  LET m(i, j, k, n) == (MM(h[i][j], h[k][n], P) - MM(h[i][n], h[k][j], P)) % P
  IN IF D = 1 THEN h[1][1] % P ELSE IF D = 2 THEN m(1, 1, 2, 2)
     ELSE (MM(h[1][1], m(2, 2, 3, 3), P) - MM(h[1][2], m(2, 1, 3, 3), P) + MM(h[1][3], m(2, 1, 3, 2), P)) % P
RECURSIVE PowM(_, _, _)
PowM(a, n, P) == IF n = 0 THEN 1 ELSE MM(a, PowM(a, n - 1, P), P)
Stationary(L, D, h, M, P) ==
  LET I == 1 .. D
      B(i, j) == WGet(L, <<U(D, j), U(D, i)>>)
      A2(i, j) == WGet(L, <<Zeros(D), UU(D, i, j)>>) * (IF i = j THEN 2 ELSE 1)
      e == WGet(L, <<Zeros(D), Zeros(D)>>)
      X == [i \in I |-> [j \in I |->
              (SumM(I \X I, LAMBDA kl : MM(h[i][kl[1]], MM(A2(kl[1], kl[2]), h[kl[2]][j], P), P), P)
               - MM(2 * M, SumM(I, LAMBDA k : MM(B(k, i), h[k][j], P), P), P)) % P]]
  IN /\ \A i, j \in I : (X[i][j] + X[j][i]) % P = 0
     /\ MM(2 * M, e, P) = SumM(I \X I, LAMBDA kl : MM(A2(kl[1], kl[2]), h[kl[1]][kl[2]], P), P)
Gauss == /\ Is("gauss")
         /\ LET D == Dim(Ev.name) L == Built(Ev.name, Ev.p, Ev.S) h == Hs(D)
            IN /\ Chk(\A q \in DOMAIN WFromTerms(Ev.Q) : SumSeq(q[1]) = 2)
               /\ Chk(\A q \in DOMAIN L : SumSeq(q[1]) <= 1)
               /\ Ev.num > 0 /\ Ev.den > 0 /\ h[1][1] > 0
               /\ Chk(\A P \in Primes : Stationary(L, D, h, Ev.M, P))
               /\ Chk(\A P \in Primes : MM(DetM(h, D, P), Ev.den, P) = MM(Ev.num, PowM(Ev.M, D, P), P))
         /\ UNCHANGED ws
Refused == Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws
Init == TInit(W0)
Step == Eqn \/ Fluxes \/ MapOp \/ Gauss \/ Refused
Next == (Step /\ Advance) \/ Done
=============================================================================
