------------------------------ MODULE T_Exprs ------------------------------
(* Sessions with symbolic functions (C12).  Ev.pts are the points at which   *)
(* the recorder evaluated the objects returned by the library.               *)
EXTENDS Exprs, TraceBase
W0 == <<>>
Vals(ts, dirs) == [i \in 1 .. Len(Ev.pts) |-> FunAt(ts, dirs, Ev.pts[i])]

\* any notation, printed code, arithmetic: the values are those of the function
Value == /\ Is("value")
         /\ Ev.dirs = Ev.wantdirs
         /\ Chk(Ev.res = Vals(Ev.terms, Ev.dirs))
         /\ UNCHANGED ws
Arith == /\ Is("arith")
         /\ Chk( LET a == Vals(Ev.a, Ev.dirs) b == Vals(Ev.b, Ev.dirs)
                 IN Ev.res = [i \in 1 .. Len(Ev.pts) |->
                       CASE Ev.what = "add" -> a[i] + b[i]
                         [] Ev.what = "mul" -> a[i] * b[i]
                         [] Ev.what = "div" -> a[i]])       \* (a * b) / b
         /\ UNCHANGED ws
TensorF == /\ Is("tensorf")
           /\ Chk( /\ Ev.dirs = SortSeq(Ev.da \o Ev.db, LAMBDA x, y : x < y)
                   /\ Ev.res = [i \in 1 .. Len(Ev.pts) |-> FunAt(Ev.a, Ev.da, Ev.pts[i]) * FunAt(Ev.b, Ev.db, Ev.pts[i])])
           /\ UNCHANGED ws

\* Ev.parts: per term of the sum [c |-> values of the constant, groups |-> <<[dirs, vars, vals]>>]
Split == /\ Is("split")
         /\ Chk( /\ \A q \in 1 .. Len(Ev.parts) : LET gs == Ev.parts[q].groups IN
                       /\ IsPartition({ Range(gs[i].dirs) : i \in 1 .. Len(gs) }, Range(Ev.dirs))
                       /\ SumSeq([i \in 1 .. Len(gs) |-> Len(gs[i].dirs)]) = Len(Ev.dirs)
                       /\ \A i \in 1 .. Len(gs) : Range(gs[i].vars) \subseteq Range(gs[i].dirs)
                 /\ \A k \in 1 .. Len(Ev.pts) :
                       FunAt(Ev.terms, Ev.dirs, Ev.pts[k]) =
                         SumSeq([q \in 1 .. Len(Ev.parts) |-> Ev.parts[q].c *
                            ProdSeq([i \in 1 .. Len(Ev.parts[q].groups) |-> Ev.parts[q].groups[i].vals[k]])]))
         /\ UNCHANGED ws

\* projection of a single term on the directions Ev.on
CanProject(t) == \A g \in Groups(t, Ev.dirs) : g \subseteq Range(Ev.on) \/ g \cap Range(Ev.on) = {}
Lowest == Ev.dirs[1] \in Range(Ev.on)
Project == /\ Is("project")
           /\ Chk( IF Len(Ev.terms) = 1 /\ CanProject(Ev.terms[1])
                   THEN /\ Ev.raised = 0
                        /\ Ev.res = [k \in 1 .. Len(Ev.pts) |->
                              (IF Lowest THEN Ev.terms[1].c ELSE 1) * PartAt(Ev.terms[1], Range(Ev.on), Ev.pts[k])]
                   ELSE Ev.raised = 1)
           /\ UNCHANGED ws

Finest == /\ Is("finest")
          /\ Chk( \A i \in 1 .. Len(Ev.res) :
                    LET ToP(x) == { Range(x[j]) : j \in 1 .. Len(x) }
                    IN ToP(Ev.res[i]) = FinestCommon(ToP(Ev.p), ToP(Ev.qs[i]), Range(Ev.dirs))
                       /\ Len(Ev.res[i]) = Cardinality(ToP(Ev.res[i])))
          /\ UNCHANGED ws
Same == /\ Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws

Init == TInit(W0)
Step == Value \/ Arith \/ TensorF \/ Split \/ Project \/ Finest \/ Same \/ Refused
Next == (Step /\ Advance) \/ Done
=============================================================================
