----------------------------- MODULE TensorAlg -----------------------------
(* Coefficient arrays indexed by multi-indices: tensorization, projection,   *)
(* contraction.  A direction list is a strictly increasing sequence of       *)
(* labels; position i of a multi-index belongs to the i-th label.            *)
EXTENDS IndexSets

\* positions, within the sorted labels all, of the labels ds
RelPos(all, ds) == [i \in 1 .. Len(ds) |-> PosOf(all, ds[i])]
SubIdx(m, all, ds) == Pick(m, RelPos(all, ds))
\* the multi-index over all that is m on ds and 0 elsewhere
Embed(m, all, ds) == [i \in 1 .. Len(all) |-> LET p == PosOf(ds, all[i])
                                              IN IF p = 0 THEN 0 ELSE m[p]]
Increasing(ds) == \A i \in 1 .. Len(ds) - 1 : ds[i] < ds[i + 1]
SortedLabels(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* vectors.  parts[p] = [dirs, list, vals]
TensorVecAt(parts, all, m) ==
  ProdSeq([p \in 1 .. Len(parts) |->
     parts[p].vals[PosOf(parts[p].list, SubIdx(m, all, parts[p].dirs))]])

\* contraction of c1 over d1 with c2 over d2 at multi-index m over their symmetric difference
InnerAt(kind, deg, d1, l1, c1, d2, l2, c2, dout, m) ==
  LET shared == SelectSeq(d1, LAMBDA x : PosOf(d2, x) > 0)
      only1 == SelectSeq(d1, LAMBDA x : PosOf(d2, x) = 0)
      m1 == SubIdx(m, dout, only1)
      r1 == RelPos(d1, only1)
      rs == RelPos(d1, shared)
      \* the multi-index over d2 that agrees with m and with k on the shared directions
      Comb2(k) == [i \in 1 .. Len(d2) |-> LET p == PosOf(shared, d2[i])
                     IN IF p > 0 THEN k[p] ELSE m[PosOf(dout, d2[i])]]
      A == { a \in 1 .. Len(l1) : c1[a] # 0 /\ Pick(l1[a], r1) = m1 }
  IN SumOver(A, LAMBDA a : LET b == PosOf(l2, Comb2(Pick(l1[a], rs)))
                           IN IF b = 0 THEN 0 ELSE c1[a] * c2[b])
=============================================================================
