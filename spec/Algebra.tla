------------------------------ MODULE Algebra ------------------------------
(* Series (vectors) and Varf (matrices): coefficients indexed by multi-      *)
(* indices over a position, with a degree, an index set and a factor.        *)
(*   sp = [dirs, at (mean, var, type per direction), diag, kind, deg, fac]   *)
(*   x  = [k |-> 0 vector | 1 matrix, sp, list, ix, c]; ix is the place of   *)
(* every multi-index in list; c the coefficients, row by row for a matrix.   *)
EXTENDS Positions, TensorAlg

Place(list) == [m \in Range(list) |-> PosOf(list, m)]
MkObj(k, sp, list, c) == [k |-> k, sp |-> sp, list |-> list, ix |-> Place(list), c |-> c]
VAt(x, m) == x.c[x.ix[m]]
MAt(x, m, p) == x.c[x.ix[m]][x.ix[p]]
Dim(sp) == Len(sp.dirs)
PosPart(sp) == [dirs |-> sp.dirs, at |-> sp.at, diag |-> sp.diag]
SpOf(p, kind, deg, fac) == [dirs |-> p.dirs, at |-> p.at, diag |-> p.diag, kind |-> kind, deg |-> deg, fac |-> fac]
\* degrees that name the same set are the same degree; without directions there is only one
SameDeg(sp, tp) == Dim(sp) = 0 \/ SameSet(sp.kind, sp.deg, tp.deg)
SamePos(sp, tp) == PosPart(sp) = PosPart(tp)
SameSpace(sp, tp) == SamePos(sp, tp) /\ sp.kind = tp.kind /\ SameDeg(sp, tp)
ListOf(sp, list) == IF Dim(sp) = 0 THEN list = << <<>> >> ELSE GoodListing(sp.kind, Dim(sp), sp.deg, list)

\* sums
CanAdd(a, b) == a.k = b.k /\ SameSpace(a.sp, b.sp) /\ a.sp.fac = b.sp.fac
AddV(a, b, s, m) == VAt(a, m) + s * VAt(b, m)
AddM(a, b, s, m, p) == MAt(a, m, p) + s * MAt(b, m, p)
EqualObj(a, b) == /\ SameSpace(a.sp, b.sp) /\ a.sp.fac = b.sp.fac
                  /\ IF a.k = 0 THEN \A m \in Range(a.list) : VAt(a, m) = VAt(b, m)
                     ELSE \A m, p \in Range(a.list) : MAt(a, m, p) = MAt(b, m, p)
\* a matrix applied to a series
CanApply(a, u) == a.k = 1 /\ u.k = 0 /\ SameSpace(a.sp, u.sp)
ApplyAt(a, u, m) == LET r == a.c[a.ix[m]] IN SumSeq([j \in 1 .. Len(a.list) |-> r[j] * VAt(u, a.list[j])])
\* products
FacAt(sp, d) == sp.fac[Idx(sp.dirs, d)]
Shared(sp, tp) == Range(sp.dirs) \cap Range(tp.dirs)
CanMul(a, b) == /\ a.k = b.k /\ a.sp.kind = b.sp.kind
                /\ IF a.k = 1 THEN Shared(a.sp, b.sp) = {} /\ SameSet(a.sp.kind, a.sp.deg, b.sp.deg)
                   ELSE \/ Dim(a.sp) = 0 \/ Dim(b.sp) = 0
                        \/ /\ SameSet(a.sp.kind, a.sp.deg, b.sp.deg)
                           /\ CanTensor(<<PosPart(a.sp), PosPart(b.sp)>>)
                           /\ \A d \in Shared(a.sp, b.sp) : FacAt(a.sp, d) = FacAt(b.sp, d)
MulSp(a, b) == IF Dim(a.sp) = 0 THEN b.sp ELSE IF Dim(b.sp) = 0 THEN a.sp ELSE
   LET p == Tensor(<<PosPart(a.sp), PosPart(b.sp)>>)
   IN SpOf(p, a.sp.kind, IF p.dirs = <<>> THEN 0 ELSE a.sp.deg,
           [i \in 1 .. Len(p.dirs) |-> IF p.dirs[i] \in Range(a.sp.dirs) THEN FacAt(a.sp, p.dirs[i]) ELSE FacAt(b.sp, p.dirs[i])])
MulV(a, b, sp, m) ==
  IF Dim(a.sp) = 0 THEN a.c[1] * VAt(b, m) ELSE IF Dim(b.sp) = 0 THEN b.c[1] * VAt(a, m)
  ELSE InnerAt(a.sp.kind, a.sp.deg, a.sp.dirs, a.list, a.c, b.sp.dirs, b.list, b.c, sp.dirs, m)
MulM(a, b, sp, m, p) == MAt(a, SubIdx(m, sp.dirs, a.sp.dirs), SubIdx(p, sp.dirs, a.sp.dirs))
                        * MAt(b, SubIdx(m, sp.dirs, b.sp.dirs), SubIdx(p, sp.dirs, b.sp.dirs))
\* change of set and degree
CanCross(a, n) == a.sp.kind = "triangle" /\ Max2(n, 1) + Dim(a.sp) - 1 <= a.sp.deg
CrossSp(a, n) == [a.sp EXCEPT !.kind = "cross", !.deg = n]
CanSub(a, n) == IF a.k = 0 THEN a.sp.kind # "cross_nc" ELSE n <= a.sp.deg
SubSp(a, n) == [a.sp EXCEPT !.deg = n]
SubV(a, m) == IF m \in DOMAIN a.ix THEN VAt(a, m) ELSE 0
CanProj(a, ds) == CanProject(PosPart(a.sp), ds)
ProjSp(a, ds) == SpOf(Project(PosPart(a.sp), ds), a.sp.kind, a.sp.deg, [i \in 1 .. Len(ds) |-> FacAt(a.sp, ds[i])])
ProjV(a, ds, m) == VAt(a, Embed(m, a.sp.dirs, ds))
ProjM(a, ds, m, p) == MAt(a, Embed(m, a.sp.dirs, ds), Embed(p, a.sp.dirs, ds))

\* the object with the given space whose entries are those of F (G for a matrix)
BuildV(sp, list, F(_)) == MkObj(0, sp, list, [i \in 1 .. Len(list) |-> F(list[i])])
BuildM(sp, list, G(_, _)) == MkObj(1, sp, list, [i \in 1 .. Len(list) |-> [j \in 1 .. Len(list) |-> G(list[i], list[j])]])
=============================================================================
