------------------------------ MODULE T_Index ------------------------------
(* Sessions over the enumerators (C01, C02, C03).                            *)
(*   list    : hermipy.core.iterator_list_indices                            *)
(*   nextlist: the listing of a higher degree, must extend the current one   *)
(*   size / index / degree : the counting functions                          *)
(*   subseries / subvarf   : truncation and padding of expansions            *)
EXTENDS IndexSets, TraceBase

W0 == [kind |-> "none", dim |-> 0, deg |-> 0, list |-> <<>>]

List == /\ Is("list")
        /\ Chk(GoodListing(Ev.kind, Ev.dim, Ev.deg, Ev.list))
        /\ ws' = [kind |-> Ev.kind, dim |-> Ev.dim, deg |-> Ev.deg, list |-> Ev.list]

\* the listing of a larger degree starts with the current listing
NextList == /\ Is("nextlist")
            /\ Ev.kind = ws.kind /\ Ev.dim = ws.dim /\ Ev.deg >= ws.deg
            /\ ws.kind \in Nested
            /\ Len(Ev.list) = Count(Ev.kind, Ev.dim, Ev.deg)
            /\ Len(ws.list) <= Len(Ev.list)
            /\ Chk(\A i \in 1 .. Len(ws.list) : Ev.list[i] = ws.list[i])
            /\ ws' = [ws EXCEPT !.deg = Ev.deg, !.list = Ev.list]

Size == /\ Is("size")
        /\ Ev.res = Count(Ev.kind, Ev.dim, Ev.deg)
        /\ UNCHANGED ws

SizeOfList == /\ Is("sizeoflist") /\ Ev.res = Len(ws.list) /\ UNCHANGED ws

\* ranks[i] is the rank the library gives to the i-th listed multi-index
Ranks == /\ Is("ranks")
         /\ Len(Ev.res) = Len(ws.list)
         /\ Chk(\A i \in 1 .. Len(Ev.res) : Ev.res[i] = i - 1)
         /\ UNCHANGED ws

\* the degree recovered from a number of coefficients
Degree == /\ Is("degree")
          /\ SameSet(Ev.kind, Ev.deg, Ev.res)
          /\ Count(Ev.kind, Ev.dim, Ev.res) = Ev.n
          /\ UNCHANGED ws

\* a number of coefficients that is the size of no degree must be refused
RECURSIVE FitsSome(_, _, _, _)
FitsSome(kind, d, n, deg) ==
  IF deg > 250 THEN FALSE
  ELSE LET c == Count(kind, d, deg)
       IN IF c = n THEN TRUE ELSE IF c > n THEN FALSE ELSE FitsSome(kind, d, n, deg + 1)
NoDegree == /\ Is("nodegree")
            /\ Chk(~FitsSome(Ev.kind, Ev.dim, Ev.n, 0))
            /\ Ev.raised = 1
            /\ UNCHANGED ws

\* Series.subdegree: coefficients follow their multi-index, new ones are 0
SubSeries ==
  /\ Is("subseries")
  /\ Len(Ev.list) = Count(Ev.kind, Ev.dim, Ev.deg)
  /\ Len(Ev.sublist) = Count(Ev.kind, Ev.dim, Ev.sub)
  /\ Len(Ev.coeffs) = Len(Ev.list)
  /\ Len(Ev.res) = Len(Ev.sublist)
  /\ Ev.resdeg = Ev.sub \/ SameSet(Ev.kind, Ev.sub, Ev.resdeg)
  /\ Chk(LET c == CoefFun(Ev.list, Ev.coeffs)
         IN \A i \in 1 .. Len(Ev.res) :
               Ev.res[i] = IF Ev.sublist[i] \in DOMAIN c THEN c[Ev.sublist[i]] ELSE 0)
  /\ UNCHANGED ws

\* Varf.subdegree: the block of the entries between indices of the smaller set
SubVarf ==
  /\ Is("subvarf")
  /\ Len(Ev.list) = Count(Ev.kind, Ev.dim, Ev.deg)
  /\ Len(Ev.sublist) = Count(Ev.kind, Ev.dim, Ev.sub)
  /\ Len(Ev.mat) = Len(Ev.list)
  /\ Len(Ev.res) = Len(Ev.sublist)
  /\ Chk(\A i \in 1 .. Len(Ev.res) : Len(Ev.res[i]) = Len(Ev.sublist))
  /\ Chk(LET p == [i \in 1 .. Len(Ev.sublist) |-> PosOf(Ev.list, Ev.sublist[i])]
         IN /\ \A i \in 1 .. Len(p) : p[i] > 0
            /\ \A i, j \in 1 .. Len(p) : Ev.res[i][j] = Ev.mat[p[i]][p[j]])
  /\ UNCHANGED ws

\* a request the library must refuse (raise), e.g. subdegree on a set whose
\* enumeration is not nested
Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws

Init == TInit(W0)
Step == List \/ NextList \/ Size \/ SizeOfList \/ Ranks \/ Degree \/ SubSeries \/ SubVarf \/ Refused \/ NoDegree
Next == (Step /\ Advance) \/ Done
=============================================================================
