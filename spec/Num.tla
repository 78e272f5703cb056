-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic shared by every other module.  All the quantities of   *)
(* the specification are (small) integers: the Hermite and Fourier algebra   *)
(* is written in unnormalised (monic) bases where it is exact.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

Bad == 2000000001          \* what the recorder writes for "not the integer it should be"

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

FactT == [n \in 0 .. 12 |-> CASE n = 0 -> 1 [] n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6
            [] n = 4 -> 24 [] n = 5 -> 120 [] n = 6 -> 720 [] n = 7 -> 5040 [] n = 8 -> 40320
            [] n = 9 -> 362880 [] n = 10 -> 3628800 [] n = 11 -> 39916800 [] n = 12 -> 479001600]
Fact(n) == FactT[n]

\* falling factorial n (n-1) ... (n-k+1)
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN 1 ELSE n * Falling(n - 1, k - 1)

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 \/ k = n THEN 1
               ELSE IF 2 * k > n THEN Binom(n, n - k)
               ELSE (Binom(n - 1, k - 1) * n) \div k

RECURSIVE SumTo(_, _)
\* sum of f[i], i = 1..n, for a function or sequence f
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
ProdSeq(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
MaxSeq(s) == FoldSeq(LAMBDA x, y : Max2(x, y), 0, s)
SumOver(S, Op(_)) == FoldSet(LAMBDA x, y : Op(x) + y, 0, S)
ProdOver(S, Op(_)) == FoldSet(LAMBDA x, y : Op(x) * y, 1, S)

Distinct(s) == Cardinality(Range(s)) = Len(s)
IsNatSeq(s, n) == Len(s) = n /\ \A i \in 1 .. n : s[i] >= 0
\* s restricted to the positions (1-based) in the sequence ps
Pick(s, ps) == [i \in 1 .. Len(ps) |-> s[ps[i]]]
\* position of x in s (s has no duplicates); 0 if absent
PosOf(s, x) == IF \E i \in 1 .. Len(s) : s[i] = x
               THEN CHOOSE i \in 1 .. Len(s) : s[i] = x ELSE 0
\* the function multi-index -> value given by a listing and the values in that order
CoefFun(list, vals) == [m \in Range(list) |-> vals[PosOf(list, m)]]
=============================================================================
