----------------------------- MODULE Positions -----------------------------
(* Positions and quadratures.  A position lists directions, in some order,   *)
(* each with mean, variance and type; a quadrature adds nodes and weights    *)
(* per direction and a factor, a product over directions.                    *)
(*   p.dirs, p.at[i] = [mean, var, type], p.diag                             *)
(*   q.pos, q.nodes[i], q.weights[i], q.factor: function over directions     *)
EXTENDS Num
At(p, d) == p.at[CHOOSE i \in 1 .. Len(p.dirs) : p.dirs[i] = d]
Idx(s, d) == CHOOSE i \in 1 .. Len(s) : s[i] = d
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
DirsOf(p) == Range(p.dirs)
\* how many of the positions have direction d
Occurs(ps, d) == Cardinality({i \in 1 .. Len(ps) : d \in DirsOf(ps[i])})
AllDirs(ps) == UNION {DirsOf(ps[i]) : i \in 1 .. Len(ps)}
First(ps, d) == At(ps[Min({i \in 1 .. Len(ps) : d \in DirsOf(ps[i])})], d)
Agree(ps, d) == \A i, j \in 1 .. Len(ps) : d \in DirsOf(ps[i]) /\ d \in DirsOf(ps[j])
                   => At(ps[i], d).mean = At(ps[j], d).mean /\ At(ps[i], d).var = At(ps[j], d).var
CanTensor(ps) == /\ \A i \in 1 .. Len(ps) : ps[i].diag
                 /\ \A d \in AllDirs(ps) : Occurs(ps, d) <= 2 /\ Agree(ps, d)
Tensor(ps) == IF Len(ps) = 1 THEN ps[1] ELSE
              LET ds == Sorted({d \in AllDirs(ps) : Occurs(ps, d) = 1})
              IN [dirs |-> ds, at |-> [i \in 1 .. Len(ds) |-> First(ps, ds[i])], diag |-> TRUE]
CanProject(p, ds) == p.diag /\ Range(ds) \subseteq DirsOf(p) /\ \A i \in 1 .. Len(ds) - 1 : ds[i] <= ds[i + 1]
Project(p, ds) == [dirs |-> ds, at |-> [i \in 1 .. Len(ds) |-> At(p, ds[i])], diag |-> TRUE]
\* quadratures, over disjoint directions
QTensor(qs) == LET p == Tensor([i \in 1 .. Len(qs) |-> qs[i].pos])
                   own(d) == qs[CHOOSE i \in 1 .. Len(qs) : d \in DirsOf(qs[i].pos)]
                   pick(d, f) == f[Idx(own(d).pos.dirs, d)]
               IN [pos |-> p, nodes |-> [i \in 1 .. Len(p.dirs) |-> pick(p.dirs[i], own(p.dirs[i]).nodes)],
                   weights |-> [i \in 1 .. Len(p.dirs) |-> pick(p.dirs[i], own(p.dirs[i]).weights)],
                   factor |-> [i \in 1 .. Len(p.dirs) |-> pick(p.dirs[i], own(p.dirs[i]).factor)]]
QProject(q, ds) == LET g(f) == [i \in 1 .. Len(ds) |-> f[Idx(q.pos.dirs, ds[i])]]
                   IN [pos |-> Project(q.pos, ds), nodes |-> g(q.nodes), weights |-> g(q.weights), factor |-> g(q.factor)]
=============================================================================
