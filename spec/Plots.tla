------------------------------- MODULE Plots -------------------------------
(* What a drawing shows.  A drawing (a matplotlib Axes) is a set of layers   *)
(* and a title:                                                              *)
(*   curves   sequences of points <<x, y>>                                   *)
(*   maps     values on a rectangular grid: [x, y, z], z[j][i] at (x_i, y_j) *)
(*   lines    contour lines of such values                                   *)
(*   bars     <<position, height>>                                           *)
(*   dots     sets of <<x, y, colour value>>                                 *)
(*   vs, hs   vertical and horizontal lines (hundredths)                     *)
(* Every call adds layers to one drawing and changes nothing else.           *)
EXTENDS Galerkin

Blank == [curves |-> <<>>, maps |-> <<>>, lines |-> <<>>, bars |-> <<>>, dots |-> <<>>,
          vs |-> <<>>, hs |-> <<>>, title |-> ""]

\* abscissae of a direction: mean + deviation * node
Axis(mean, sd, nodes) == [x \in 1 .. Len(nodes) |-> mean + sd * nodes[x]]
Axes_(q) == [i \in 1 .. Len(q.nodes) |-> Axis(q.mean[i], q.sd[i], q.nodes[i])]

\* values, in row-major order, of what is drawn on the grid of a quadrature: an array of values, a
\* polynomial, or a series (monic coefficients; mean and deviation of its own)
ValsOf(q, a) ==
   LET D == Len(q.nodes) ns == Sizes(q.nodes) np == ProdSeq(ns) ax == Axes_(q)
       pt(g) == [i \in 1 .. D |-> ax[i][g[i]]]
   IN CASE a.k = "vals" -> a.vals
        [] a.k = "poly" -> [p \in 1 .. np |-> PolyAt(a.terms, pt(GridIdx(p, ns)))]
        [] a.k = "series" ->
             LET bs == [i \in 1 .. D |-> [x \in 1 .. ns[i] |-> HeSeq((ax[i][x] - a.mean[i]) \div a.sd[i], Max2(1, a.deg))]]
             IN [p \in 1 .. np |-> LET g == GridIdx(p, ns) IN
                   SumSeq([m \in 1 .. Len(a.list) |-> IF a.coeffs[m] = 0 THEN 0 ELSE
                     a.coeffs[m] * ProdSeq([i \in 1 .. D |-> bs[i][g[i]][a.list[m][i] + 1]])])]
Times(u, v) == [p \in 1 .. Len(u) |-> u[p] * v[p]]

\* values of the grid (row-major, last direction fastest) as a curve or as a map
CurveOf(xs, vals) == [p \in 1 .. Len(xs) |-> <<xs[p], vals[p]>>]
MapOf(xs, ys, vals) == [x |-> xs, y |-> ys,
     z |-> [j \in 1 .. Len(ys) |-> [i \in 1 .. Len(xs) |-> vals[(i - 1) * Len(ys) + j]]]]

\* stream function of a field (fx, fy) on a grid, zero at the first point: integrates -fy dx along
\* the first row of points, then fx dy along the columns
RECURSIVE PsiRow(_, _, _), PsiCol(_, _, _, _)
PsiRow(xs, fy, i) == IF i = 1 THEN 0 ELSE PsiRow(xs, fy, i - 1) - fy[i] * (xs[i] - xs[i - 1])
PsiCol(ys, fx, start, j) == IF j = 1 THEN start ELSE PsiCol(ys, fx, start, j - 1) + fx[j] * (ys[j] - ys[j - 1])
Psi(xs, ys, fx, fy) ==       \* fx, fy row-major values
   LET ny == Len(ys)
       fy1 == [i \in 1 .. Len(xs) |-> fy[(i - 1) * ny + 1]]
       col(i) == [j \in 1 .. ny |-> fx[(i - 1) * ny + j]]
   IN [x |-> xs, y |-> ys,
       z |-> [j \in 1 .. ny |-> [i \in 1 .. Len(xs) |-> PsiCol(ys, col(i), PsiRow(xs, fy1, i), j)]]]

MinOf(s) == FoldSeq(LAMBDA a, b : Min2(a, b), s[1], s)
MaxOf(s) == FoldSeq(LAMBDA a, b : Max2(a, b), s[1], s)
DefaultTitle(vals) == "Min: " \o ToString(MinOf(vals)) \o ".000, Max: " \o ToString(MaxOf(vals)) \o ".000"

\* the line at hundredths n lies where ((x - mean) / sd)^2 = 2 (2 d + 1), on the given side
AtWidth(n, mean, sd, d, side) ==
   LET a == side * (n - 100 * mean)
       w == 20000 * (2 * d + 1) * sd * sd
   IN a > 0 /\ (a - 1) * (a - 1) < w /\ w < (a + 1) * (a + 1)
Pair(two, mean, sd, d) == /\ Len(two) = 2 /\ AtWidth(two[1], mean, sd, d, -1) /\ AtWidth(two[2], mean, sd, d, 1)

\* the squares of the entries of a matrix that are not zero, as dots at (row, column)
DotsOf(M) == {<<i - 1, j - 1, Abs(M[i][j])>> : i \in 1 .. Len(M), j \in 1 .. Len(M)} \
             {<<i - 1, j - 1, 0>> : i \in 1 .. Len(M), j \in 1 .. Len(M)}
\* where the degree of the listed indices rises
DegreeLines(kind, dim, deg) == [k \in 1 .. deg |-> Count(kind, dim, k - 1)]
=============================================================================
