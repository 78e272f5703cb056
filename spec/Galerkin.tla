------------------------------ MODULE Galerkin ------------------------------
(* The function spaces: per direction monic Hermite polynomials He_n of the  *)
(* scaled variable xi = (x - mu) / sg, or the real trigonometric basis       *)
(* 1, sin t, cos t, sin 2t, cos 2t ... of t = (x - mu) / sg.  Multiplication *)
(* and differentiation are exact integer maps in these bases; the recorder   *)
(* converts the normalised coefficients of the library to them.              *)
EXTENDS IndexSets

\* <<He_0(x), ..., He_N(x)>> (1-based sequence)
HeSeq(x, N) == IF N = 0 THEN <<1>>
  ELSE FoldLeft(LAMBDA acc, n : Append(acc, x * acc[n] - (n - 1) * acc[n - 1]),
                <<1, x>>, [i \in 1 .. N - 1 |-> i + 1])

\* trigonometric values on the two grids of angles: "q", multiples of pi/2, and
\* "t", multiples of pi/3 (there cosines are doubled and sines times 2/sqrt 3)
Cos4 == <<1, 0, -1, 0>>
Sin4 == <<0, 1, 0, -1>>
Cos6 == <<2, 1, -1, -2, -1, 1>>
Sin6 == <<0, 1, 1, 0, -1, -1>>
TrigAt(unit, j, x) ==   \* basis function j at angle x units
  IF j = 0 THEN 1
  ELSE LET k == (j + 1) \div 2
       IN IF unit = "q" THEN IF j % 2 = 1 THEN Sin4[((k * x) % 4) + 1] ELSE Cos4[((k * x) % 4) + 1]
          ELSE IF j % 2 = 1 THEN Sin6[((k * x) % 6) + 1] ELSE Cos6[((k * x) % 6) + 1]
BasisSeq(t, x, N) == IF t = "h" THEN HeSeq(x, N) ELSE [j \in 1 .. N + 1 |-> TrigAt(t, j - 1, x)]

----------------------------------------------------------------------------
\* Hermite direction: coefficients (functions on 0..M) of x^a d^k He_j
XMul(c, mu, sg, M) == [i \in 0 .. M |->
   mu * c[i] + sg * ((IF i > 0 THEN c[i - 1] ELSE 0) + (IF i < M THEN (i + 1) * c[i + 1] ELSE 0))]
HCol(mu, sg, a, k, j, n) ==
  LET M == Max2(n, j) + a
      c0 == [i \in 0 .. M |-> IF i = j - k THEN Falling(j, k) ELSE 0]
  IN FoldLeft(LAMBDA c, s : XMul(c, mu, sg, M), c0, [s \in 1 .. a |-> s])

\* Fourier direction: twice the coefficient of basis function i in fac * d^k t_j,
\* where fac is cos(p t) or sin(p t)
CosC(q, i) == IF i = 2 * Abs(q) THEN 1 ELSE 0
SinC(q, i) == IF q # 0 /\ i = 2 * Abs(q) - 1 THEN (IF q > 0 THEN 1 ELSE -1) ELSE 0
FEntry(fac, p, k, i, j) ==
  IF j = 0 THEN IF k > 0 THEN 0 ELSE IF fac = "c" THEN 2 * CosC(p, i) ELSE 2 * SinC(p, i)
  ELSE LET w == (j + 1) \div 2
           s0 == IF j % 2 = 1 THEN 0 ELSE 1      \* 0: sin, 1: cos; d turns s into s+1
           s == (s0 + k) % 4
           c == Pow(w, k) * (IF s \in {0, 1} THEN 1 ELSE -1)
           isc == s % 2 = 1
       IN c * ( IF fac = "c"
                THEN IF isc THEN CosC(p - w, i) + CosC(p + w, i)
                     ELSE SinC(w + p, i) + SinC(w - p, i)
                ELSE IF isc THEN SinC(p + w, i) + SinC(p - w, i)
                     ELSE CosC(p - w, i) - CosC(p + w, i) )

\* products of two basis functions: the coefficients (twice, for Fourier directions) of
\* e_i e_j on e_0, e_1, ..., from He_(i+1) He_j = xi He_i He_j - i He_(i-1) He_j
HLinear(i, j) ==
  LET M == i + j
      e == [k \in 0 .. M |-> IF k = j THEN 1 ELSE 0]
      st == FoldLeft(LAMBDA st, n : << st[2], [k \in 0 .. M |-> XMul(st[2], 0, 1, M)[k] - (n - 1) * st[1][k]] >>,
                     << [k \in 0 .. M |-> 0], e >>, [n \in 1 .. i |-> n])
  IN st[2]
FLinear(i, j, k) == IF i = 0 THEN FEntry("c", 0, 0, k, j)
                    ELSE FEntry(IF i % 2 = 1 THEN "s" ELSE "c", (i + 1) \div 2, 0, k, j)
IsTriple(t, n, res) ==
  /\ Len(res) = 2 * n + 1
  /\ \A k \in 1 .. 2 * n + 1 : Len(res[k]) = n + 1 /\ \A i \in 1 .. n + 1 : Len(res[k][i]) = n + 1
  /\ \A i, j \in 0 .. n :
       LET h == IF t = "h" THEN HLinear(i, j) ELSE [k \in 0 .. 2 * n |-> FLinear(i, j, k)]
       IN \A k \in 0 .. 2 * n : res[k + 1][i + 1][j + 1] = IF k \in DOMAIN h THEN h[k] ELSE 0

----------------------------------------------------------------------------
\* A space is a sequence of directions [t, mu, sg]; a term is a product of one
\* factor and one derivative order per direction: [c, f, d], f[i] = <<"x", a>>
\* in a Hermite direction, <<"c"|"s", p>> in a Fourier one.
Table(dr, f, k, n) ==
  IF dr.t = "h" THEN LET cols == [j \in 0 .. n |-> HCol(dr.mu, dr.sg, f[2], k, j, n)]
                     IN [i \in 0 .. n |-> [j \in 0 .. n |-> cols[j][i]]]
  ELSE [i \in 0 .. n |-> [j \in 0 .. n |-> FEntry(f[1], f[2], k, i, j)]]
\* the factor that brings the derivative orders of a term to the common orders K
ScaleUp(sp, term, K) == ProdSeq([i \in 1 .. Len(sp) |-> Pow(sp[i].sg, K[i] - term.d[i])])

\* entry (a, b) of the matrix of the operator, in the monic basis, with each
\* Fourier direction doubled and direction i multiplied by sg^K[i]
MatTables(sp, terms, n) == [q \in 1 .. Len(terms) |->
                             [i \in 1 .. Len(sp) |-> Table(sp[i], terms[q].f[i], terms[q].d[i], n)]]
MatAt(sp, terms, tabs, ups, a, b) ==
  SumSeq([q \in 1 .. Len(terms) |->
     terms[q].c * ups[q] * ProdSeq([i \in 1 .. Len(sp) |-> tabs[q][i][a[i]][b[i]]])])

IsMatrix(sp, terms, K, n, list, res) ==
  LET tabs == MatTables(sp, terms, Max2(1, n))
      ups == [q \in 1 .. Len(terms) |-> ScaleUp(sp, terms[q], K)]
  IN /\ Len(res) = Len(list)
     /\ \A i \in 1 .. Len(list) : Len(res[i]) = Len(list)
     /\ \A i, j \in 1 .. Len(list) : res[i][j] = MatAt(sp, terms, tabs, ups, list[i], list[j])

----------------------------------------------------------------------------
\* expressions as terms [c, e, s]: c prod x_i^e_i cos(pi x_i)^s_i; value at an integer point
PolyAt(terms, pt) == SumSeq([q \in 1 .. Len(terms) |->
   terms[q].c * ProdSeq([i \in 1 .. Len(pt) |->
      Pow(pt[i], terms[q].e[i]) * (IF terms[q].s[i] = 1 /\ pt[i] % 2 = 1 THEN -1 ELSE 1)])])

\* row-major enumeration of a grid with sizes ns: the 1-based node numbers of point p (1-based)
RECURSIVE Digits(_, _)
Digits(p, ns) == IF Len(ns) = 0 THEN <<>>
                 ELSE Append(Digits(p \div ns[Len(ns)], SubSeq(ns, 1, Len(ns) - 1)), (p % ns[Len(ns)]) + 1)
GridIdx(p, ns) == Digits(p - 1, ns)
Sizes(nodes) == [i \in 1 .. Len(nodes) |-> Len(nodes[i])]
=============================================================================
