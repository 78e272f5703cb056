-------------------------------- MODULE Weyl --------------------------------
(* The algebra of linear differential operators with polynomial coefficients *)
(* in D variables and integer coefficients.  An operator is a function from  *)
(* pairs <<a, k>> (exponents of x, orders of d) to non-zero integers: the    *)
(* sum of c x^a d^k.  Functions are the operators of order 0.                *)
EXTENDS Galerkin

WZero == [p \in {} |-> 0]
Norm(f) == [p \in { q \in DOMAIN f : f[q] # 0 } |-> f[p]]
WGet(f, p) == IF p \in DOMAIN f THEN f[p] ELSE 0
WAdd(f, g) == Norm([p \in DOMAIN f \cup DOMAIN g |-> WGet(f, p) + WGet(g, p)])
WScale(c, f) == Norm([p \in DOMAIN f |-> c * f[p]])
WNeg(f) == WScale(-1, f)
WSub(f, g) == WAdd(f, WNeg(g))
WMono(c, a, k) == IF c = 0 THEN WZero ELSE (<<a, k>> :> c)
Zeros(D) == [i \in 1 .. D |-> 0]
Unit(D, i) == [j \in 1 .. D |-> IF j = i THEN 1 ELSE 0]
WSumOver(S, Op(_)) == FoldSet(LAMBDA x, acc : WAdd(Op(x), acc), WZero, S)

\* (c1 x^a d^k)(c2 x^b d^l) = sum over r <= k of binom(k, r) falling(b, r) c1 c2 x^(a+b-r) d^(k+l-r)
VecLe(D, k) == { r \in [1 .. D -> 0 .. Max2(1, FoldSeq(LAMBDA x, y : Max2(x, y), 0, k))] : \A i \in 1 .. D : r[i] <= k[i] }
MonoMul(c1, a, k, c2, b, l) ==
  LET D == Len(a)
      R == { r \in VecLe(D, k) : \A i \in 1 .. D : r[i] <= b[i] }
  IN WSumOver(R, LAMBDA r : WMono(
        c1 * c2 * ProdSeq([i \in 1 .. D |-> Binom(k[i], r[i]) * Falling(b[i], r[i])]),
        [i \in 1 .. D |-> a[i] + b[i] - r[i]], [i \in 1 .. D |-> k[i] + l[i] - r[i]]))
WMul(f, g) == WSumOver((DOMAIN f) \X (DOMAIN g),
                       LAMBDA pq : MonoMul(f[pq[1]], pq[1][1], pq[1][2], g[pq[2]], pq[2][1], pq[2][2]))
WOne(D) == WMono(1, Zeros(D), Zeros(D))
WD(D, i) == WMono(1, Zeros(D), Unit(D, i))
WX(D, i) == WMono(1, Unit(D, i), Zeros(D))
RECURSIVE WPow(_, _, _)
WPow(D, f, n) == IF n = 0 THEN WOne(D) ELSE WMul(f, WPow(D, f, n - 1))

\* the part of order 0: the operator applied to the constant 1
IsFun(f) == \A p \in DOMAIN f : \A i \in DOMAIN p[2] : p[2][i] = 0
WApply(L, u) == LET g == WMul(L, u) IN [p \in { q \in DOMAIN g : \A i \in DOMAIN q[2] : q[2][i] = 0 } |-> g[p]]
\* partial derivative of a function: [d_i, u]
WDiff(D, i, u) == LET d == WD(D, i) IN WSub(WMul(d, u), WMul(u, d))
DimOf(f) == IF DOMAIN f = {} THEN 0 ELSE Len((CHOOSE p \in DOMAIN f : TRUE)[1])

\* substitution d_i -> d_i + b_i (b_i functions whose mixed derivatives agree)
WSubst(D, L, b) ==
  LET ds == [i \in 1 .. D |-> WAdd(WD(D, i), b[i])]
      prod(k) == FoldLeft(LAMBDA acc, i : WMul(acc, WPow(D, ds[i], k[i])), WOne(D), [i \in 1 .. D |-> i])
  IN WSumOver(DOMAIN L, LAMBDA p : WMul(WMono(L[p], p[1], Zeros(D)), prod(p[2])))
\* conjugation exp(q) L exp(-q), i.e. the factor rho = exp(-q): d_i -> d_i - d_i q
WConjExp(L, q) == LET D == Max2(DimOf(L), DimOf(q))
                  IN WSubst(D, L, [i \in 1 .. D |-> WNeg(WDiff(D, i, q))])
\* formal adjoint: (c x^a d^k)* = (-1)^|k| d^k x^a c
WAdj(D, L) == WSumOver(DOMAIN L, LAMBDA p :
     MonoMul(IF SumSeq(p[2]) % 2 = 0 THEN L[p] ELSE -L[p], Zeros(D), p[2], 1, p[1], Zeros(D)))

\* conversion from and to sequences of terms [c, f, d] (all directions Hermite)
WFromTerms(ts) == FoldSeq(LAMBDA t, acc : WAdd(WMono(t.c, [i \in 1 .. Len(t.f) |-> t.f[i][2]], t.d), acc), WZero, ts)
WTerms(L) == LET ps == SetToSeq(DOMAIN L)
             IN [q \in 1 .. Len(ps) |-> [c |-> L[ps[q]],
                   f |-> [i \in 1 .. Len(ps[q][1]) |-> <<"x", ps[q][1][i]>>], d |-> ps[q][2]]]
=============================================================================
