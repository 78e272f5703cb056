----------------------------- MODULE IndexIter -----------------------------
(* The successor functions the library's enumerators are built on, as state  *)
(* machines: one step = one increment.  Checked exhaustively (MC_Iter) to    *)
(* visit exactly the sets of IndexSets, once each, and nested by degree.     *)
EXTENDS IndexSets

\* each returns <<full, next multi-index>>
TriInc(m, n) ==
  LET d == Len(m)
      nz == { i \in 1 .. d - 1 : m[i + 1] # 0 }
      i  == IF nz = {} THEN d ELSE Min(nz)
      dec == IF nz = {} THEN m ELSE [m EXCEPT ![i + 1] = @ - 1]
  IN IF nz = {} /\ m[1] = n THEN <<TRUE, m>>
     ELSE LET up == [dec EXCEPT ![i] = 1 + dec[1]]
          IN <<FALSE, IF i > 1 THEN [up EXCEPT ![1] = 0] ELSE up>>

\* cube and rectangle share one scheme, with weights f (1 or 2)
RECURSIVE BoxScan(_, _, _, _, _)
BoxScan(m, f, mx, ind, i) ==      \* <<found, m>>
  IF i > Len(m) THEN <<FALSE, m>>
  ELSE IF (m[i] + 1) * f[i] < mx + (IF i < ind THEN 1 ELSE 0)
       THEN <<TRUE, [m EXCEPT ![i] = @ + 1]>>
       ELSE BoxScan(IF i # ind THEN [m EXCEPT ![i] = 0] ELSE m, f, mx, ind, i + 1)

BoxInc(m, n, f) ==
  LET d  == Len(m)
      w  == [i \in 1 .. d |-> m[i] * f[i]]
      mx == MaxSeq(w)
      ind == Max({ i \in 1 .. d : w[i] = mx })
      sc == BoxScan(m, f, mx, ind, 1)
      r  == sc[2]
      nxt == { i \in ind + 1 .. d : mx % f[i] = 0 }
  IN IF sc[1] THEN <<FALSE, r>>
     ELSE IF ind = d \/ nxt = {}
          THEN IF mx >= n THEN <<TRUE, r>>
               ELSE <<FALSE, [[r EXCEPT ![ind] = 0] EXCEPT ![1] = mx + 1]>>
          ELSE LET j == Min(nxt)
               IN <<FALSE, [[r EXCEPT ![ind] = 0] EXCEPT ![j] = mx \div f[j]]>>

RECURSIVE ToggleOnes(_, _)
ToggleOnes(m, i) ==               \* binary counter on the coordinates <= 1
  IF i > Len(m) THEN <<FALSE, m>>
  ELSE IF m[i] = 1 THEN ToggleOnes([m EXCEPT ![i] = 0], i + 1)
  ELSE IF m[i] = 0 THEN <<TRUE, [m EXCEPT ![i] = 1]>>
  ELSE ToggleOnes(m, i + 1)

CrossInc(m, n) ==
  LET d == Len(m)
      tg == ToggleOnes(m, 1)
      c == tg[2]
      nz == { i \in 1 .. d - 1 : c[i + 1] # 0 }
  IN IF tg[1] THEN <<FALSE, c>>
     ELSE IF n = 1 THEN <<TRUE, c>>
     ELSE IF nz # {}
     THEN LET i == Min(nz)
              p == Max2(1, c[1]) * c[i + 1]
              fs == { f \in Max2(1, c[1]) + 1 .. p : p % f = 0 }
              fac == IF fs = {} THEN 0 ELSE Min(fs)
              a == [c EXCEPT ![i] = fac]
              b == [a EXCEPT ![i + 1] = IF fac = p THEN 0 ELSE p \div fac]
          IN <<FALSE, IF i > 1 THEN [b EXCEPT ![1] = 0] ELSE b>>
     ELSE IF c[1] = n THEN <<TRUE, c>>
          ELSE LET a == [c EXCEPT ![d] = 1 + Max2(1, c[1])]
               IN <<FALSE, IF d > 1 THEN [a EXCEPT ![1] = 0] ELSE a>>

RECURSIVE NcSkip(_, _)
NcSkip(m, n) ==
  LET t == TriInc(m, n + Len(m) - 1)
  IN IF t[1] THEN <<TRUE, m>>     \* would be an error in the library
     ELSE IF InSet("cross_nc", n, t[2]) THEN <<FALSE, t[2]>> ELSE NcSkip(t[2], n)
NcInc(m, n0) ==
  LET n == Max2(n0, 1)
  IN IF m[1] = n /\ \A i \in 2 .. Len(m) : m[i] = 1 THEN <<TRUE, m>> ELSE NcSkip(m, n)

Inc(kind, m, n) ==
  CASE kind = "triangle" -> TriInc(m, n)
    [] kind = "cube" -> BoxInc(m, n, [i \in 1 .. Len(m) |-> 1])
    [] kind = "rectangle" -> BoxInc(m, n, [i \in 1 .. Len(m) |-> IF i = 1 THEN 1 ELSE 2])
    [] kind = "cross" -> CrossInc(m, IF n = 0 THEN 1 ELSE n)
    [] kind = "cross_nc" -> NcInc(m, n)
=============================================================================
