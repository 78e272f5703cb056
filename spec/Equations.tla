----------------------------- MODULE Equations -----------------------------
(* The stochastic dynamics behind hermipy.equations.  A dynamics is given by *)
(* its drift and its diffusion matrix; its generator is                      *)
(*     L = sum_i b_i d_i + sum_ij A_ij d_i d_j                               *)
(* and the forward (Fokker-Planck) operator is the formal adjoint of L.      *)
(* Parameters are rationals <<num, den>>, potentials sequences of integer    *)
(* coefficients (of x^0, x^1, ...); operators are multiplied by an integer S *)
(* that makes all their coefficients integers.                               *)
EXTENDS Weyl

One == <<1, 1>>
RNeg(r) == <<-r[1], r[2]>>
RInv(r) == IF r[1] > 0 THEN <<r[2], r[1]>> ELSE <<-r[2], -r[1]>>
RSub(r, s) == <<r[1] * s[2] - s[1] * r[2], r[2] * s[2]>>
\* S times the product of the rationals in rs
Coef(S, rs) ==
  LET n == S * ProdSeq([i \in DOMAIN rs |-> rs[i][1]])
      d == ProdSeq([i \in DOMAIN rs |-> rs[i][2]])
  IN IF n % d = 0 THEN n \div d ELSE Assert(FALSE, "scale too small")
T(S, rs, a, k) == WMono(Coef(S, rs), a, k)
\* the term  (prod rs) V'(x_i) d^k
VPrime(S, D, v, i, rs, k) ==
  WSumOver(2 .. Len(v), LAMBDA j : WMono(Coef(S, rs) * (j - 1) * v[j], [q \in 1 .. D |-> IF q = i THEN j - 2 ELSE 0], k))
V(D, v, i) == WSumOver(1 .. Len(v), LAMBDA j : WMono(v[j], [q \in 1 .. D |-> IF q = i THEN j - 1 ELSE 0], Zeros(D)))
U(D, i) == Unit(D, i)
UU(D, i, j) == [q \in 1 .. D |-> (IF q = i THEN 1 ELSE 0) + (IF q = j THEN 1 ELSE 0)]
WAddAll(ts) == FoldSeq(LAMBDA t, acc : WAdd(t, acc), WZero, ts)

\* confinement and interaction: -(V' + theta (x - m)) d_x
Drift(S, D, p) == WAddAll(<<VPrime(S, D, p.v, 1, <<<<-1, 1>>>>, U(D, 1)),
                            T(S, <<RNeg(p.theta)>>, U(D, 1), U(D, 1)),
                            T(S, <<p.theta, p.m>>, Zeros(D), U(D, 1))>>)
\* coloured noise c (1 - gamma) eta / eps in the first direction, eta the i-th variable;
\* white noise gamma^2 / beta.  s is the square root of 1 / beta
Noise(S, D, p, i, c) == WAddAll(<<T(S, <<RSub(One, p.gamma), p.s, c, RInv(p.eps)>>, U(D, i), U(D, 1)),
                                  T(S, <<p.gamma, p.gamma, p.s, p.s>>, Zeros(D), UU(D, 1, 1))>>)
Ie2(p) == <<RInv(p.eps), RInv(p.eps)>>

Dim(name) == CASE name \in {"fp1d", "white", "overdamped"} -> 1
               [] name \in {"ou", "langevinF", "langevinB", "gle0"} -> 2
               [] name \in {"harmonic", "gle1"} -> 3 [] name = "gle2" -> 4

Gen(name, p, S) ==
  LET D == Dim(name) z == Zeros(D) IN
  CASE name \in {"fp1d", "overdamped"} ->
         \* dX = -V'(X) dt + sqrt(2 / beta) dW
         WAddAll(<<VPrime(S, 1, p.v, 1, <<<<-1, 1>>>>, <<1>>), T(S, <<RInv(p.beta)>>, z, <<2>>)>>)
    [] name = "white" ->
         WAddAll(<<Drift(S, 1, p), T(S, <<RInv(p.beta)>>, z, <<2>>)>>)
    [] name = "ou" ->
         \* dY = -Vy'(Y) dt / eps^2 + sqrt(2) dW / eps; c is the normalisation of the noise
         WAddAll(<<Drift(S, 2, p), Noise(S, 2, p, 2, p.c),
                   VPrime(S, 2, p.vy, 2, <<<<-1, 1>>>> \o Ie2(p), U(2, 2)), T(S, Ie2(p), z, UU(2, 2, 2))>>)
    [] name = "harmonic" ->
         \* dY = -(Z + Y) dt / eps^2 + sqrt(2) dW / eps,  dZ = Y dt / eps^2
         WAddAll(<<Drift(S, 3, p), Noise(S, 3, p, 3, One),
                   T(S, <<<<-1, 1>>>> \o Ie2(p), U(3, 3), U(3, 2)), T(S, <<<<-1, 1>>>> \o Ie2(p), U(3, 2), U(3, 2)),
                   T(S, Ie2(p), z, UU(3, 2, 2)), T(S, Ie2(p), U(3, 2), U(3, 3))>>)
    [] name = "langevinF" ->
         \* x velocity, y position, harmonic potential, unit temperature
         WAddAll(<<T(S, <<One>>, U(2, 1), U(2, 2)), T(S, <<<<-1, 1>>>>, U(2, 2), U(2, 1)),
                   T(S, <<RNeg(p.lam)>>, U(2, 1), U(2, 1)), T(S, <<p.lam>>, z, UU(2, 1, 1))>>)
    [] name = "langevinB" ->
         \* x velocity, y position
         WAddAll(<<T(S, <<One>>, U(2, 1), U(2, 2)), VPrime(S, 2, p.v, 2, <<<<-1, 1>>>>, U(2, 1)),
                   T(S, <<RNeg(p.gamma)>>, U(2, 1), U(2, 1)), T(S, <<p.gamma, RInv(p.beta)>>, z, UU(2, 1, 1))>>)
    [] name = "gle0" ->
         \* x position, y velocity
         WAddAll(<<T(S, <<One>>, U(2, 2), U(2, 1)), VPrime(S, 2, p.v, 1, <<<<-1, 1>>>>, U(2, 2)),
                   T(S, <<RNeg(p.gamma)>>, U(2, 2), U(2, 2)), T(S, <<p.gamma, RInv(p.beta)>>, z, UU(2, 2, 2))>>)
    [] name \in {"gle1", "gle2"} ->
         \* dq = p dt, dp = (-V'(q) + lam . z) dt, dz = (-p lam - A z) dt + noise of covariance (A + A^T) / beta
         LET m == D - 2 IN
         WAddAll(<<T(S, <<One>>, U(D, 2), U(D, 1)), VPrime(S, D, p.v, 1, <<<<-1, 1>>>>, U(D, 2)),
                   WSumOver(1 .. m, LAMBDA i : WAddAll(<<T(S, <<p.lam[i]>>, U(D, 2 + i), U(D, 2)),
                                                         T(S, <<RNeg(p.lam[i])>>, U(D, 2), U(D, 2 + i))>>)),
                   WSumOver((1 .. m) \X (1 .. m), LAMBDA ij : WAddAll(<<
                        T(S, <<RNeg(p.A[ij[1]][ij[2]])>>, U(D, 2 + ij[2]), U(D, 2 + ij[1])),
                        T(S, <<p.A[ij[1]][ij[2]], RInv(p.beta)>>, z, UU(D, 2 + ij[1], 2 + ij[2]))>>))>>)
Forward(name, p, S) == WAdj(Dim(name), Gen(name, p, S))
IsForward(name) == name \in {"fp1d", "white", "ou", "harmonic", "langevinF"}
\* what the builder of that name returns, times S
Built(name, p, S) == IF IsForward(name) THEN Forward(name, p, S) ELSE Gen(name, p, S)

\* the i-th component of the probability flux of a dynamics with diffusion diagonal and constant:
\* b_i f - A_ii d_i f, so that the forward operator is minus the divergence of the flux
Flux(L, D, i) == WSub(WSumOver({q \in DOMAIN L : q[2] = U(D, i)}, LAMBDA q : WMono(L[q], q[1], Zeros(D))),
                      WSumOver({q \in DOMAIN L : q[2] = UU(D, i, i)}, LAMBDA q : WMono(L[q], q[1], U(D, i))))
Divergence(L, D) == WSumOver(1 .. D, LAMBDA i : WMul(WD(D, i), Flux(L, D, i)))
Conserves(L, D) == WApply(WAdj(D, L), WOne(D)) = WZero

\* L (order <= 2) annihilates exp(-Q / M), Q an integer polynomial: conjugate, with d_i
\* replaced by M d_i and terms of order k multiplied by M^(2 - k)
Kills(L, D, Q, M) ==
  LET ds == [i \in 1 .. D |-> WSub(WScale(M, WD(D, i)), WDiff(D, i, Q))]
      prod(k) == FoldLeft(LAMBDA acc, i : WMul(acc, WPow(D, ds[i], k[i])), WOne(D), [i \in 1 .. D |-> i])
      C == WSumOver(DOMAIN L, LAMBDA q : WMul(WMono(L[q] * Pow(M, 2 - SumSeq(q[2])), q[1], Zeros(D)), prod(q[2])))
  IN WApply(C, WOne(D)) = WZero

\* twice the energy H of the dynamics; Gibbs density exp(-beta H)
Sq(D, i) == WMono(1, [q \in 1 .. D |-> IF q = i THEN 2 ELSE 0], Zeros(D))
TwoH(name, p) == LET D == Dim(name) IN
  CASE name = "overdamped" -> WScale(2, V(1, p.v, 1))
    [] name = "fp1d" -> WScale(2, V(1, p.v, 1))
    [] name = "langevinF" -> WAdd(Sq(2, 1), Sq(2, 2))
    [] name = "langevinB" -> WAdd(Sq(2, 1), WScale(2, V(2, p.v, 2)))
    [] name \in {"gle0", "gle1", "gle2"} -> WAddAll(<<WScale(2, V(D, p.v, 1))>> \o [i \in 1 .. D - 1 |-> Sq(D, i + 1)])
HasGibbs(name) == name \in {"overdamped", "fp1d", "langevinF", "langevinB", "gle0", "gle1", "gle2"}
Gibbs(name, p, S) == LET b == IF name = "langevinF" THEN One ELSE p.beta
                     IN Kills(Forward(name, p, S), Dim(name), WScale(b[1], TwoH(name, p)), 2 * b[2])
=============================================================================
