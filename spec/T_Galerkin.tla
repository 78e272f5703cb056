----------------------------- MODULE T_Galerkin -----------------------------
(* Sessions of transforms, evaluations, sampling, integration and Galerkin   *)
(* matrices (C07, C08, C09, C10, C11, C14).  Every number is an integer in   *)
(* the monic / unnormalised bases of Galerkin.tla.                           *)
EXTENDS Weyl, TraceBase
W0 == <<>>
Listing == Len(Ev.list) = Count(Ev.kind, Len(Ev.list[1]), Ev.deg)

\* basis functions of every direction at every node
Bases(types, nodes, N) == [i \in 1 .. Len(nodes) |-> [x \in 1 .. Len(nodes[i]) |-> BasisSeq(types[i], nodes[i][x], N)]]
BasisAt(bs, g, m) == ProdSeq([i \in 1 .. Len(g) |-> bs[i][g[i]][m[i] + 1]])
WeightAt(ws_, g) == ProdSeq([i \in 1 .. Len(g) |-> ws_[i][g[i]]])

\* forward transform: the defining sums
Forward == /\ Is("forward")
           /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                       bs == Bases(Ev.types, Ev.nodes, Max2(1, Ev.deg))
                       gs == [p \in 1 .. np |-> GridIdx(p, ns)]
                       wv == [p \in 1 .. np |-> WeightAt(Ev.weights, gs[p]) * Ev.vals[p]]
                   IN /\ Listing /\ Len(Ev.vals) = np /\ Len(Ev.res) = Len(Ev.list)
                      /\ \A q \in 1 .. Len(Ev.list) :
                           Ev.res[q] = SumSeq([p \in 1 .. np |->
                               IF wv[p] = 0 THEN 0 ELSE wv[p] * BasisAt(bs, gs[p], Ev.list[q])]))
           /\ UNCHANGED ws

\* backward transform / evaluation at a grid given in the coordinates of the series
Backward == /\ Is("backward")
            /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                        bs == Bases(Ev.types, Ev.nodes, Max2(1, Ev.deg))
                    IN /\ Listing /\ Len(Ev.coeffs) = Len(Ev.list) /\ Len(Ev.res) = np
                       /\ \A p \in 1 .. np : LET g == GridIdx(p, ns) IN
                            Ev.res[p] = SumSeq([q \in 1 .. Len(Ev.list) |->
                               IF Ev.coeffs[q] = 0 THEN 0 ELSE Ev.coeffs[q] * BasisAt(bs, g, Ev.list[q])]))
            /\ UNCHANGED ws

\* a polynomial given by its coefficients: transforming gives them back ...
Recover == /\ Is("recover")
           /\ Chk(Listing /\ Ev.res = Ev.coeffs)
           /\ UNCHANGED ws
\* ... and evaluating the series on another quadrature: own nodes, mean and deviation
\* (in each direction in the basis of the series, whatever that of the quadrature)
EvalAt == /\ Is("evalat")
          /\ Chk( LET D == Len(Ev.nodes) ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                      xi == [i \in 1 .. D |-> [x \in 1 .. ns[i] |->
                               (Ev.qmean[i] + Ev.qsd[i] * Ev.nodes[i][x] - Ev.mean[i]) \div Ev.sd[i]]]
                      exact == \A i \in 1 .. D : \A x \in 1 .. ns[i] :
                               (Ev.qmean[i] + Ev.qsd[i] * Ev.nodes[i][x] - Ev.mean[i]) % Ev.sd[i] = 0
                      bs == Bases(IF "types" \in DOMAIN Ev THEN Ev.types ELSE [i \in 1 .. D |-> "h"], xi, Max2(1, Ev.deg))
                  IN /\ exact /\ Listing /\ Len(Ev.res) = np
                     /\ \A p \in 1 .. np : LET g == GridIdx(p, ns) IN
                          Ev.res[p] = SumSeq([q \in 1 .. Len(Ev.list) |-> Ev.coeffs[q] * BasisAt(bs, g, Ev.list[q])]))
          /\ UNCHANGED ws

\* sampling a polynomial at mean + F node, in row-major order
MapPt(mean, F, nodes, g) == [i \in 1 .. Len(mean) |->
     mean[i] + SumSeq([j \in 1 .. Len(mean) |-> F[i][j] * nodes[j][g[j]]])]
FactorOf(F, cov) == \A i, j \in 1 .. Len(F) :
     cov[i][j] = SumSeq([k \in 1 .. Len(F) |-> F[i][k] * F[j][k]])
Sample == /\ Is("sample")
          /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                  IN /\ FactorOf(Ev.F, Ev.cov) /\ Len(Ev.res) = np
                     /\ \A p \in 1 .. np :
                          Ev.res[p] = PolyAt(Ev.terms, MapPt(Ev.mean, Ev.F, Ev.nodes, GridIdx(p, ns))))
          /\ UNCHANGED ws
Mapped == /\ Is("mapped")
          /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                  IN /\ FactorOf(Ev.F, Ev.cov) /\ Len(Ev.res) = np
                     /\ \A p \in 1 .. np : Ev.res[p] = MapPt(Ev.mean, Ev.F, Ev.nodes, GridIdx(p, ns)))
          /\ UNCHANGED ws
\* weighted sums of grid values: integral, 1-norm, squared 2-norm
GridSum == /\ Is("gridsum")
           /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                       f(v) == CASE Ev.what = "int" -> v [] Ev.what = "norm1" -> Abs(v) [] Ev.what = "norm2" -> v * v
                   IN Ev.res = SumSeq([p \in 1 .. np |-> WeightAt(Ev.weights, GridIdx(p, ns)) * f(Ev.vals[p])]))
           /\ UNCHANGED ws

\* weighted sum over the mapped grid of an expression given symbolically
QSum == /\ Is("qsum")
        /\ Chk( LET ns == Sizes(Ev.nodes) np == ProdSeq(ns)
                    f(v) == CASE Ev.what = "int" -> v [] Ev.what = "norm1" -> Abs(v) [] Ev.what = "norm2" -> v * v
                IN /\ FactorOf(Ev.F, Ev.cov)
                   /\ Ev.res = SumSeq([p \in 1 .. np |-> LET g == GridIdx(p, ns) IN
                         WeightAt(Ev.weights, g) * f(PolyAt(Ev.terms, MapPt(Ev.mean, Ev.F, Ev.nodes, g)))]))
        /\ UNCHANGED ws
\* the Gaussian density w of mean m and covariance C in the Hermite directions:
\*   1 / (w(m)^2 (2 pi)^D) = det C,   -2 log (w(m + y) / w(m)) det C = y^T adj(C) y
Minor(M, i, j) == LET n == Len(M) - 1 IN [a \in 1 .. n |-> [b \in 1 .. n |-> M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1
          ELSE SumSeq([j \in 1 .. Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
Cofactor(M, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, i, j))
Density == /\ Is("density")
           /\ Chk( LET n == Len(Ev.cov) adj == [i \in 1 .. n |-> [j \in 1 .. n |-> Cofactor(Ev.cov, j, i)]]
                   IN /\ Ev.det = Det(Ev.cov) /\ Len(Ev.res) = Len(Ev.pts)
                      /\ \A p \in 1 .. Len(Ev.pts) : LET y == Ev.pts[p] IN
                           Ev.res[p] = SumSeq([i \in 1 .. n |-> SumSeq([j \in 1 .. n |-> y[i] * adj[i][j] * y[j]])]))
           /\ UNCHANGED ws
\* a composite rule is the weighted sum of its rules
Comb == /\ Is("comb")
        /\ Chk(Ev.res = SumSeq([i \in 1 .. Len(Ev.qw) |-> Ev.qw[i] * Ev.parts[i]]))
        /\ UNCHANGED ws
\* expectation of an expression (Gaussian in Hermite directions, mean over the period in
\* Fourier ones, doubled): the (0, 0) entry of the matrix of multiplication by it
Expect == /\ Is("expect")
          /\ Chk( LET z == [i \in 1 .. Len(Ev.sp) |-> 0]
                  IN Ev.res = MatAt(Ev.sp, Ev.terms, MatTables(Ev.sp, Ev.terms, 0),
                                    [q \in 1 .. Len(Ev.terms) |-> 1], z, z))
          /\ UNCHANGED ws

\* Galerkin matrices
Mat == /\ Is("mat")
       /\ Has("issparse") => Ev.issparse = Ev.wantsparse
       /\ Chk( Listing /\ IsMatrix(Ev.sp, Ev.terms, Ev.K, Ev.deg, Ev.list, Ev.res))
       /\ UNCHANGED ws
\* the table of products of basis functions
Triple == /\ Is("triple") /\ Chk(IsTriple(Ev.t, Ev.deg, Ev.res)) /\ UNCHANGED ws
\* composing any matrix (monic basis) with a derivative of a Hermite direction
DMat == /\ Is("dmat")
        /\ Ev.issparse = Ev.wantsparse
        /\ Chk( /\ Listing /\ Len(Ev.res) = Len(Ev.list)
                /\ LET dn(m) == [m EXCEPT ![Ev.dir] = @ - 1]
                       at == [j \in 1 .. Len(Ev.list) |-> IF Ev.list[j][Ev.dir] = 0 THEN 0 ELSE PosOf(Ev.list, dn(Ev.list[j]))]
                   IN \A i, j \in 1 .. Len(Ev.list) :
                        /\ Len(Ev.res[i]) = Len(Ev.list)
                        /\ Ev.res[i][j] = IF at[j] = 0 THEN 0 ELSE Ev.list[j][Ev.dir] * Ev.m[i][at[j]])
        /\ UNCHANGED ws
\* the same after conjugation by the factor exp(-q): d_i becomes d_i - d_i q
MatConj == /\ Is("matconj")
           /\ Chk( /\ Listing
                   /\ LET L == WConjExp(WFromTerms(Ev.terms), WFromTerms(Ev.q))
                          ts == WTerms(L)
                      IN IsMatrix(Ev.sp, ts, Ev.K, Ev.deg, Ev.list, Ev.res))
           /\ UNCHANGED ws
Same == /\ Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws

Init == TInit(W0)
Step == Density \/ Forward \/ Backward \/ Recover \/ EvalAt \/ Sample \/ Mapped \/ GridSum \/ QSum \/ Comb \/ Expect
        \/ Mat \/ Triple \/ DMat \/ MatConj \/ Same \/ Refused
Next == (Step /\ Advance) \/ Done
=============================================================================
