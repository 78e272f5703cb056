------------------------------ MODULE MC_Layout ------------------------------
(* All views reachable by programs of bounded length over small arrays.      *)
EXTENDS Layout, Json
CONSTANTS Bases, MaxOps, Gen
VARIABLES dims, v, prog
vars == <<dims, v, prog>>
Shapes == CASE Bases = "2d" -> {<<3, 3>>, <<2, 4>>, <<4, 3>>, <<1, 5>>, <<5, 1>>}
            [] Bases = "3d" -> {<<2, 3, 4>>, <<3, 3, 3>>}
            [] Bases = "1d" -> {<<7>>, <<1>>, <<4>>}
Init == dims \in Shapes /\ v = Fresh(dims) /\ prog = <<>>
Axes == 1 .. Len(dims)
Ops == {[op |-> "T", a |-> 1]} \cup {[op |-> o, a |-> a] : o \in {"R", "S", "D", "E"}, a \in Axes}
Next == \E o \in Ops : /\ Len(prog) < MaxOps /\ Fits(v, o)
                       /\ v' = Apply(v, o) /\ prog' = Append(prog, o) /\ dims' = dims
Spec == Init /\ [][Next]_vars
\* views never leave the buffer and never show an entry twice
InBuffer == \A n \in 1 .. Size(v) : Entries(v)[n] \in 1 .. ProdSeq(dims)
Once == Distinct(Entries(v))
\* transposing and reversing twice is nothing
Involutions == /\ Apply(Apply(v, [op |-> "T", a |-> 1]), [op |-> "T", a |-> 1]) = v
               /\ \A a \in Axes : Entries(Apply(Apply(v, [op |-> "R", a |-> a]), [op |-> "R", a |-> a])) = Entries(v)
Replays == Run(Fresh(dims), prog) = v
Emit == ~Gen \/ PrintT("HIST " \o ToJson([dims |-> dims, prog |-> prog]))
=============================================================================
