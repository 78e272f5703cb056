---------------------------- MODULE MC_Positions ----------------------------
(* Laws of composing and projecting, over all small positions.               *)
EXTENDS Positions
CONSTANTS Dirs, Means
VARIABLES ps
Data == [mean : Means, var : {1, 2}, type : {0}]
Pos == UNION { {[dirs |-> Sorted(S), at |-> a, diag |-> TRUE] : a \in [1 .. Cardinality(S) -> Data]} : S \in SUBSET Dirs }
Init == ps \in {<<a>> : a \in Pos}
Next == Len(ps) < 3 /\ \E a \in Pos : ps' = Append(ps, a)
Spec == Init /\ [][Next]_ps
Perm3 == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Disjoint == \A i, j \in 1 .. Len(ps) : i # j => DirsOf(ps[i]) \cap DirsOf(ps[j]) = {}
\* order does not matter, and pairs may be composed first
Commutes == Len(ps) = 2 /\ CanTensor(ps) => Tensor(ps) = Tensor(<<ps[2], ps[1]>>)
Associates == Len(ps) = 3 /\ CanTensor(ps) =>
                 /\ CanTensor(<<Tensor(<<ps[1], ps[2]>>), ps[3]>>)
                 /\ Tensor(ps) = Tensor(<<Tensor(<<ps[1], ps[2]>>), ps[3]>>)
                 /\ Tensor(ps) = Tensor(<<ps[1], Tensor(<<ps[2], ps[3]>>)>>)
\* projecting the composition on a part gives the part back
PartsBack == Disjoint /\ CanTensor(ps) => \A i \in 1 .. Len(ps) : Project(Tensor(ps), ps[i].dirs) = ps[i]
\* a position composed with itself has no directions left
Cancels == Len(ps) = 1 => Tensor(<<ps[1], ps[1]>>).dirs = <<>>
Nested == Len(ps) = 1 => \A S \in SUBSET DirsOf(ps[1]) : \A T \in SUBSET S :
             Project(Project(ps[1], Sorted(S)), Sorted(T)) = Project(ps[1], Sorted(T))
=============================================================================
