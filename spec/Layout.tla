------------------------------- MODULE Layout -------------------------------
(* Arrays in memory.  A buffer holds 1, 2, 3, ... ; a view has an offset, a  *)
(* shape and strides (all in entries).  Views are cut, reversed, thinned and *)
(* transposed without touching the buffer; what they denote is the sequence  *)
(* of their entries in row-major order.                                      *)
EXTENDS Num
RECURSIVE CStrides(_)
CStrides(dims) == IF dims = <<>> THEN <<>>
                  ELSE <<ProdSeq(Tail(dims))>> \o CStrides(Tail(dims))
RECURSIVE FStrides(_, _)
FStrides(dims, s) == IF dims = <<>> THEN <<>> ELSE <<s>> \o FStrides(Tail(dims), s * Head(dims))
\* freshly allocated arrays, in either order; the buffer is filled so that the entries read 1, 2, ...
Fresh(dims) == [off |-> 0, shape |-> dims, st |-> CStrides(dims)]
FlipSeq(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Apply(v, o) ==
  CASE o.op = "T" -> [v EXCEPT !.shape = FlipSeq(@), !.st = FlipSeq(@)]
    [] o.op = "R" -> [v EXCEPT !.off = @ + (v.shape[o.a] - 1) * v.st[o.a], !.st[o.a] = -@]
    [] o.op = "S" -> [v EXCEPT !.shape[o.a] = (@ + 1) \div 2, !.st[o.a] = 2 * @]
    [] o.op = "D" -> [v EXCEPT !.shape[o.a] = @ - 1, !.off = @ + v.st[o.a]]
    [] o.op = "E" -> [v EXCEPT !.shape[o.a] = @ - 1]
    [] OTHER -> v          \* copies in any order, other types, read-only: the same entries
Fits(v, o) == o.op \in {"D", "E"} => v.shape[o.a] > 1
RECURSIVE Run(_, _)
Run(v, prog) == IF prog = <<>> THEN v ELSE Run(Apply(v, Head(prog)), Tail(prog))
\* the entry at row-major position n (0-based)
RECURSIVE Addr(_, _, _)
Addr(n, shape, st) == IF shape = <<>> THEN 0
                      ELSE LET r == ProdSeq(Tail(shape)) IN (n \div r) * Head(st) + Addr(n % r, Tail(shape), Tail(st))
Size(v) == ProdSeq(v.shape)
Entry(v, n) == 1 + v.off + Addr(n, v.shape, v.st)
Entries(v) == [n \in 1 .. Size(v) |-> Entry(v, n - 1)]
=============================================================================
