----------------------------- MODULE IndexSets -----------------------------
(* The five families of multi-index sets that define the approximation       *)
(* spaces of hermipy: membership, cardinality, nesting.                      *)
EXTENDS Num

Kinds == {"triangle", "cube", "cross", "cross_nc", "rectangle"}
Nested == {"triangle", "cube", "cross", "rectangle"}   \* enumerations nested by degree

\* membership of the multi-index m in the set of degree n
InSet(kind, n, m) ==
  CASE kind = "triangle"  -> SumSeq(m) <= n
    [] kind = "cube"      -> \A i \in DOMAIN m : m[i] <= n
    [] kind = "cross"     -> ProdSeq([i \in DOMAIN m |-> Max2(1, m[i])]) <= Max2(n, 1)
    [] kind = "cross_nc"  -> ProdSeq([i \in DOMAIN m |-> Max2(1, m[i])]) <= Max2(n, 1)
    [] kind = "rectangle" -> m[1] <= n /\ \A i \in 2 .. Len(m) : 2 * m[i] <= n

\* number of d-tuples of naturals with sum <= n
TriCount(d, n) == Binom(n + d, d)

\* number of d-tuples with prod max(1, m_i) <= b (b >= 1).  Fixing the first
\* coordinate m leaves the same problem with budget floor(b / max(1,m)); equal
\* quotients are grouped so that the recursion is cheap.
RECURSIVE CrossCount(_, _), CrossSum(_, _, _)
CrossSum(d, b, m) ==
  IF m > b THEN 0
  ELSE LET q == b \div m  hi == b \div q
       IN (hi - m + 1) * CrossCount(d - 1, q) + CrossSum(d, b, hi + 1)
CrossCount(d, b) ==
  IF d = 0 THEN 1
  ELSE IF d = 1 THEN b + 1
  ELSE CrossCount(d - 1, b) + CrossSum(d, b, 1)

Count(kind, d, n) ==
  CASE kind = "triangle"  -> TriCount(d, n)
    [] kind = "cube"      -> Pow(n + 1, d)
    [] kind \in {"cross", "cross_nc"} -> CrossCount(d, Max2(n, 1))
    [] kind = "rectangle" -> (n + 1) * Pow((n \div 2) + 1, d - 1)

\* two degrees that name the same set
SameSet(kind, n, p) == n = p \/ (kind \in {"cross", "cross_nc"} /\ Max2(n, 1) = Max2(p, 1))

\* A listing is correct iff it is a sequence of tuples of naturals of length d,
\* pairwise distinct, all in the set, as many as the set has elements.
GoodListing(kind, d, n, list) ==
  /\ Len(list) = Count(kind, d, n)
  /\ \A i \in 1 .. Len(list) : IsNatSeq(list[i], d)
  /\ \A i \in 1 .. Len(list) : InSet(kind, n, list[i])
  /\ Distinct(list)

\* explicit set, for the small exhaustive models
SetOf(kind, d, n) == { m \in [1 .. d -> 0 .. n] : InSet(kind, n, m) }
=============================================================================
