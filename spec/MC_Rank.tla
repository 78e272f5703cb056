------------------------------ MODULE MC_Rank ------------------------------
(* The closed-form ranks of the triangle and cube enumerations, and the      *)
(* search for the degree by bisection, as a machine next to the enumerator.  *)
EXTENDS IndexIter
CONSTANTS MaxDim, MaxDeg, Top
VARIABLES kind, d, n, m, pos, lo, hi, ph
vars == <<kind, d, n, m, pos, lo, hi, ph>>

TriRank(x) == SumOver(1 .. Len(x), LAMBDA i :
                LET s == SumSeq(SubSeq(x, 1, i)) IN IF s > 0 THEN Binom(i - 1 + s, i) ELSE 0)
CubeRank(x) ==
  LET dd == Len(x) mx == MaxSeq(x)
      ind == Max({ i \in 1 .. dd : x[i] = mx })
      before == Pow(mx, dd) + SumOver(1 .. ind - 1, LAMBDA i : Pow(mx, dd - i) * Pow(mx + 1, i - 1))
      others == SelectSeq([i \in 1 .. dd |-> i], LAMBDA i : i # ind)
      w == [j \in 1 .. Len(others) |-> ProdSeq([q \in 1 .. j - 1 |-> IF others[q] < ind THEN mx + 1 ELSE mx])]
  IN before + SumOver(1 .. Len(others), LAMBDA j : w[j] * x[others[j]])
Rank(x) == IF kind = "triangle" THEN TriRank(x) ELSE CubeRank(x)

Init == /\ kind \in {"triangle", "cube"} /\ d \in 1 .. MaxDim /\ n \in 0 .. MaxDeg
        /\ (d >= 4 => n <= 3)
        /\ m = [i \in 1 .. d |-> 0] /\ pos = 0 /\ ph = "enum" /\ lo = 0 /\ hi = Top
Enum == /\ ph = "enum"
        /\ LET r == Inc(kind, m, n) IN
             IF r[1] THEN ph' = "bisect" /\ UNCHANGED <<m, pos>>
             ELSE m' = r[2] /\ pos' = pos + 1 /\ UNCHANGED ph
        /\ UNCHANGED <<kind, d, n, lo, hi>>
\* the search knows only the number of polynomials, pos + 1
Img(x) == Count(kind, d, x) - (pos + 1)
Bisect == /\ ph = "bisect"
          /\ IF Img(lo) = 0 THEN ph' = "found" /\ hi' = lo /\ UNCHANGED lo
             ELSE IF Img(hi) = 0 THEN ph' = "found" /\ lo' = hi /\ UNCHANGED hi
             ELSE LET x == (lo + hi) \div 2 IN
                  IF Img(x) < 0 THEN IF x = lo THEN ph' = "fail" /\ UNCHANGED <<lo, hi>>
                                     ELSE lo' = x /\ UNCHANGED <<hi, ph>>
                  ELSE IF Img(x) > 0 THEN hi' = x /\ UNCHANGED <<lo, ph>>
                  ELSE lo' = x /\ hi' = x /\ ph' = "found"
          /\ UNCHANGED <<kind, d, n, m, pos>>
Next == Enum \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RankIsPosition == ph = "enum" => Rank(m) = pos
BisectFinds == /\ ph = "found" => lo = n
               /\ ph # "fail"
Terminates == <>(ph = "found")
=============================================================================
