----------------------------- MODULE MC_Tensor -----------------------------
(* The model of the coefficient-array algebra, explored exhaustively: start  *)
(* from one-direction vectors with small entries, tensorize and project in   *)
(* any order; the laws a user relies on hold in every reachable state.       *)
EXTENDS TensorAlg
CONSTANTS Labels, Deg, MaxSteps, KindSet
Vals == {-1, 2}
VARIABLES kind, objs, steps
vars == <<kind, objs, steps>>

\* an object: [dirs |-> sorted labels, f |-> function from multi-indices to integers,
\*             fac |-> the one-direction vectors it is built from]
L(ds) == SetOf(kind, Len(ds), Deg)
Vecs == [0 .. Deg -> Vals]
MkOne(x, v) == [dirs |-> <<x>>, f |-> [m \in L(<<x>>) |-> v[m[1]]], fac |-> x :> v]
TensorObj(a, b) ==
  LET ds == SortedLabels(Range(a.dirs) \cup Range(b.dirs))
  IN [dirs |-> ds, fac |-> a.fac @@ b.fac,
      f |-> [m \in L(ds) |-> a.f[SubIdx(m, ds, a.dirs)] * b.f[SubIdx(m, ds, b.dirs)]]]
ProjObj(a, ds) == [dirs |-> ds, f |-> [m \in L(ds) |-> LET e == Embed(m, a.dirs, ds)
                                                     IN IF e \in DOMAIN a.f THEN a.f[e] ELSE 0],
                   fac |-> [x \in Range(ds) |-> a.fac[x]]]

Init == /\ kind \in KindSet
        /\ objs = {} /\ steps = 0
Create == \E x \in Labels, v \in Vecs :
            /\ \A o \in objs : Range(o.dirs) \cap {x} = {}
            /\ objs' = objs \cup {MkOne(x, v)}
Tensor == \E a, b \in objs :
            /\ Range(a.dirs) \cap Range(b.dirs) = {}
            /\ objs' = (objs \ {a, b}) \cup {TensorObj(a, b)}
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Create \/ Tensor) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

\* the object is the product of its one-direction factors, however it was grouped
Product == \A o \in objs : \A m \in DOMAIN o.f :
   o.f[m] = ProdSeq([i \in 1 .. Len(o.dirs) |-> o.fac[o.dirs[i]][m[i]]])
\* projecting on some directions gives the factors there times the other factors at 0
ProjLaw == \A o \in objs : \A S \in (SUBSET Range(o.dirs)) \ {{}} :
   LET ds == SortedLabels(S) p == ProjObj(o, ds)
       rest == ProdOver(Range(o.dirs) \ S, LAMBDA x : o.fac[x][0])
   IN \A m \in DOMAIN p.f : Embed(m, o.dirs, ds) \in DOMAIN o.f =>
        p.f[m] = rest * ProdSeq([i \in 1 .. Len(ds) |-> o.fac[ds[i]][m[i]]])
\* contracting a product with one of its one-direction factors
InnerLaw == \A o \in objs : Len(o.dirs) > 1 => \A x \in Range(o.dirs) :
   LET one == MkOne(x, o.fac[x]) ds == SortedLabels(Range(o.dirs) \ {x})
       l1 == SetToSeq(DOMAIN o.f) l2 == SetToSeq(DOMAIN one.f)
       c1 == [i \in 1 .. Len(l1) |-> o.f[l1[i]]] c2 == [i \in 1 .. Len(l2) |-> one.f[l2[i]]]
   IN \A m \in L(ds) :
        InnerAt(kind, Deg, o.dirs, l1, c1, one.dirs, l2, c2, ds, m)
        = ProdSeq([i \in 1 .. Len(ds) |-> o.fac[ds[i]][m[i]]]) *
          SumOver({ k \in 0 .. Deg : [i \in 1 .. Len(o.dirs) |->
                      IF o.dirs[i] = x THEN k ELSE m[PosOf(ds, o.dirs[i])]] \in DOMAIN o.f },
                  LAMBDA k : o.fac[x][k] * o.fac[x][k])
=============================================================================
