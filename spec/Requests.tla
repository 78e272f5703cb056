------------------------------ MODULE Requests ------------------------------
(* The domain of the array-level functions of hermipy (C22).  A request is a *)
(* record with the sizes, directions and names it was made with; Verdict(r)  *)
(* says what the library owes: "ok" (answer, of shape Shape(r)), "bad"       *)
(* (raise), or "any" (degenerate requests in dimension 0, which have an      *)
(* obvious meaning but no use: either answer, but no crash).                 *)
EXTENDS IndexSets
MaxDeg == 250

\* degree of the set with N elements, -1 if there is none
RECURSIVE DegFrom(_, _, _, _)
DegFrom(kind, d, N, n) ==
  IF n > MaxDeg THEN -1
  ELSE LET c == Count(kind, d, n) IN IF c = N THEN n ELSE IF c > N THEN -1 ELSE DegFrom(kind, d, N, n + 1)
DegOf(kind, d, N) == DegFrom(kind, d, N, 0)
Fits(kind, d, N) == DegOf(kind, d, N) >= 0

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Increasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
If(b, x, y) == IF b THEN x ELSE y

\* parts p = [dirs, n, cols]: cols = -1 for vectors
PartsOK(kind, ps) ==
  LET ds == FlatSeq([i \in DOMAIN ps |-> ps[i].dirs])
  IN /\ Injective(ds)
     /\ \A i \in DOMAIN ds : ds[i] \in 0 .. Len(ds) - 1
     /\ \A i \in DOMAIN ps : ps[i].cols \in {-1, ps[i].n}
     /\ \A i \in DOMAIN ps : Fits(kind, Len(ps[i].dirs), ps[i].n)
     /\ \A i \in DOMAIN ps : SameSet(kind, DegOf(kind, Len(ps[1].dirs), ps[1].n), DegOf(kind, Len(ps[i].dirs), ps[i].n))
PartsDim(ps) == Len(FlatSeq([i \in DOMAIN ps |-> ps[i].dirs]))
PartsDeg(kind, ps) == DegOf(kind, Len(ps[1].dirs), ps[1].n)
\* matrices over labels that are not 0 .. D-1 are combined in increasing order
Relabel(ps) == ps[1].cols >= 0
               /\ LET ds == FlatSeq([i \in DOMAIN ps |-> ps[i].dirs]) IN Injective(ds) /\ \E i \in DOMAIN ds : ds[i] \notin 0 .. Len(ds) - 1

GridOK(r) == r.wdim = r.dim /\ r.wpts = r.pts /\ r.flags = r.dim

Inner(r) == LET d1 == r.d1 d2 == r.d2 IN
  /\ Increasing(d1) /\ Increasing(d2)
  /\ Fits(r.kind, Len(d1), r.n1) /\ Fits(r.kind, Len(d2), r.n2)
  /\ SameSet(r.kind, DegOf(r.kind, Len(d1), r.n1), DegOf(r.kind, Len(d2), r.n2))
Out(r) == Cardinality((Range(r.d1) \cup Range(r.d2)) \ (Range(r.d1) \cap Range(r.d2)))

\* Positions.  Arguments that were not given: -1 (numbers), NoSeq (sequences);
\* types: 0 Hermite, 1 Fourier, 2 something else
NoSeq == <<-1>>
LenOr(s, n) == IF s = NoSeq THEN n ELSE Len(s)
PosDim(r) == IF r.mean >= 0 THEN r.mean ELSE IF r.rows >= 0 THEN r.rows ELSE IF r.dirs # NoSeq THEN Len(r.dirs) ELSE r.dim
PosOK(r) == LET D == PosDim(r) IN
  /\ D >= 0
  /\ r.mean \in {-1, D} /\ r.rows \in {-1, D} /\ r.dim \in {-1, D}
  /\ r.rows >= 0 => r.cols = r.rows
  /\ r.dirs # NoSeq => Injective(r.dirs)
  /\ LenOr(r.dirs, D) = D /\ LenOr(r.types, D) = D
  /\ r.types # NoSeq => \A i \in DOMAIN r.types : r.types[i] \in {0, 1}
\* the positions of several factors; each direction is a record [d, mu, v, t];
\* a direction of two factors is integrated out, and must be the same in both
SeqSet(s) == {s[i] : i \in DOMAIN s}
Occ(ps, d) == {i \in DOMAIN ps : \E x \in SeqSet(ps[i]) : x.d = d}
LabelsOf(ps) == {x.d : x \in UNION {SeqSet(ps[i]) : i \in DOMAIN ps}}
At(p, d) == CHOOSE x \in SeqSet(p) : x.d = d
PTensOK(ps) == \A d \in LabelsOf(ps) : /\ Cardinality(Occ(ps, d)) <= 2
                                      /\ \A i, j \in Occ(ps, d) : At(ps[i], d) = At(ps[j], d)
PTensDim(ps) == Cardinality({d \in LabelsOf(ps) : Cardinality(Occ(ps, d)) = 1})

Verdict(r) ==
  IF r.kind \notin Kinds THEN "bad"
  ELSE CASE r.fn \in {"size", "list"} -> If(r.dim < 0 \/ r.deg < 0, "bad", If(r.dim = 0, "any", "ok"))
    [] r.fn = "degree" -> If(r.dim < 0 \/ r.n <= 0, "bad", If(r.dim = 0, "any", If(Fits(r.kind, r.dim, r.n), "ok", "bad")))
    [] r.fn = "rank" -> If(r.kind \notin {"triangle", "cube"} \/ \E i \in DOMAIN r.m : r.m[i] < 0, "bad", If(r.m = <<>>, "any", "ok"))
    [] r.fn = "integrate" -> If(GridOK(r) /\ r.n = Pow(r.pts, r.dim), "ok", "bad")
    [] r.fn = "forward" -> If(GridOK(r) /\ r.deg >= 0 /\ r.n = Pow(r.pts, r.dim), "ok", "bad")
    [] r.fn = "backward" -> If(GridOK(r) /\ r.deg >= 0 /\ r.n = Count(r.kind, r.dim, r.deg), "ok", "bad")
    [] r.fn = "varf" -> If(GridOK(r) /\ r.deg >= 0 /\ r.n = Pow(r.pts, r.dim), "ok", "bad")
    [] r.fn = "varfd" -> If(r.deg < 0 \/ r.dim < 0 \/ r.dir < 0, "bad", If(r.dim = 0, "any",
                         If(r.dir < r.dim /\ r.n = r.cols /\ r.n = Count(r.kind, r.dim, r.deg), "ok", "bad")))
    [] r.fn = "discretize" -> If(r.tr = r.dim /\ r.rows = r.dim /\ r.cols = r.dim, "ok", "bad")
    [] r.fn = "tensor" -> If(\E i \in DOMAIN r.parts : r.parts[i].dirs = <<>>, "any",
                          If(PartsOK(r.kind, r.parts), "ok", If(Relabel(r.parts), "any", "bad")))
    [] r.fn = "extend" -> If(r.dim < 0 \/ r.dir < 0, "bad",
                          If(r.dir < r.dim /\ r.cols \in {-1, r.n} /\ Fits(r.kind, 1, r.n), "ok", "bad"))
    [] r.fn = "project" -> If(r.dim < 0 \/ \E i \in DOMAIN r.dirs : r.dirs[i] < 0, "bad", If(r.dim = 0, "any",
                           If(r.cols \notin {-1, r.n} \/ ~Fits(r.kind, r.dim, r.n) \/ ~Injective(r.dirs)
                              \/ \E i \in DOMAIN r.dirs : r.dirs[i] >= r.dim, "bad",
                           If(r.dirs = <<>> \/ ~Increasing(r.dirs), "any", "ok"))))
    [] r.fn = "inner" -> If(r.d1 = <<>> \/ r.d2 = <<>>, "any", If(Inner(r), "ok", "bad"))
    [] r.fn = "position" -> If(~PosOK(r), "bad", If(PosDim(r) = 0 \/ (r.dirs # NoSeq /\ ~Increasing(r.dirs)), "any", "ok"))
    [] r.fn = "pproject" -> If(~Increasing(r.dirs) \/ ~(SeqSet(r.dirs) \subseteq SeqSet(r.all)), "bad", If(r.dirs = <<>>, "any", "ok"))
    [] r.fn = "ptens" -> If(PTensOK(r.parts), "ok", "bad")
    [] r.fn = "series" -> If(Fits(r.kind, r.dim, r.n), "ok", "bad")
    [] r.fn = "matrix" -> If(r.n = r.cols /\ Fits(r.kind, r.dim, r.n), "ok", "bad")

Sq(N, cols) == IF cols = -1 THEN <<N>> ELSE <<N, N>>
Shape(r) ==
  CASE r.fn \in {"size", "degree", "rank", "integrate"} -> <<>>
    [] r.fn = "list" -> <<Count(r.kind, r.dim, r.deg), r.dim>>
    [] r.fn = "forward" -> <<Count(r.kind, r.dim, r.deg)>>
    [] r.fn \in {"backward", "discretize"} -> <<Pow(r.pts, r.dim)>>
    [] r.fn = "varf" -> Sq(Count(r.kind, r.dim, r.deg), 0)
    [] r.fn = "varfd" -> Sq(r.n, 0)
    [] r.fn = "tensor" -> Sq(Count(r.kind, PartsDim(r.parts), PartsDeg(r.kind, r.parts)), r.parts[1].cols)
    [] r.fn = "extend" -> Sq(Count(r.kind, r.dim, DegOf(r.kind, 1, r.n)), r.cols)
    [] r.fn = "project" -> Sq(Count(r.kind, Len(r.dirs), DegOf(r.kind, r.dim, r.n)), r.cols)
    [] r.fn = "inner" -> <<IF Out(r) = 0 THEN 1 ELSE Count(r.kind, Out(r), DegOf(r.kind, Len(r.d1), r.n1))>>
    [] r.fn = "position" -> <<PosDim(r)>>
    [] r.fn = "pproject" -> <<Len(r.dirs)>>
    [] r.fn = "ptens" -> <<PTensDim(r.parts)>>
    [] r.fn \in {"series", "matrix"} -> <<>>

\* all entries of the inputs are 1 (vectors, grids) or those of the identity
\* (matrices): sum of the entries of the answer, where that is easy to say
SumOf(r) ==
  CASE r.fn = "size" -> Count(r.kind, r.dim, r.deg)
    [] r.fn = "rank" -> -1
    [] r.fn \in {"integrate", "forward"} -> 1
    [] r.fn \in {"varf", "discretize"} -> Shape(r)[1]
    [] r.fn = "tensor" -> Shape(r)[1]
    \* the rectangle treats its first direction apart
    [] r.fn = "project" -> IF r.kind = "rectangle" /\ r.dirs[1] # 0 THEN -1 ELSE Shape(r)[1]
    [] OTHER -> -1
AnswerOK(r, shape, sum) ==
  /\ shape = Shape(r)
  /\ r.fn = "degree" => SameSet(r.kind, sum, DegOf(r.kind, r.dim, r.n))
  /\ r.fn = "series" => SameSet(r.kind, sum, DegOf(r.kind, r.dim, r.n))
  /\ r.fn = "matrix" => SameSet(r.kind, sum, DegOf(r.kind, r.dim, r.n))
  /\ r.fn \notin {"degree", "series", "matrix"} /\ SumOf(r) # -1 => sum = SumOf(r)
=============================================================================
