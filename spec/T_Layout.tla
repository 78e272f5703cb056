------------------------------ MODULE T_Layout ------------------------------
(* Recorded conversions (C19).                                               *)
EXTENDS Layout, TraceBase
W0 == <<>>
\* an array, its entries after crossing the boundary and back
Trip == /\ Is("trip")
        /\ Chk(LET v == Run(Fresh(Ev.dims), Ev.prog)
               IN Ev.shape = v.shape /\ Ev.vals = Entries(v))
        /\ UNCHANGED ws
\* the same for a sparse matrix with the entries that are multiples of Ev.keep
Sparse == /\ Is("sparse")
          /\ Chk(LET v == Run(Fresh(Ev.dims), Ev.prog)
                     e == Entries(v)
                 IN Ev.shape = v.shape /\ Ev.vals = [n \in 1 .. Size(v) |-> IF e[n] % Ev.keep = Ev.rest THEN e[n] ELSE 0])
          /\ UNCHANGED ws
\* a compressed matrix given by its parts: entry (i, j) is the sum of the data stored for it
Raw == /\ Is("raw")
       /\ Chk( /\ Ev.shape = <<Ev.m, Ev.n>>
               /\ Ev.vals = [k \in 1 .. Ev.m * Ev.n |->
                    LET i == (k - 1) \div Ev.n
                        j == (k - 1) % Ev.n
                    IN SumOver({q \in (Ev.indptr[i + 1] + 1) .. Ev.indptr[i + 2] : Ev.indices[q] = j}, LAMBDA q : Ev.data[q])])
       /\ UNCHANGED ws
\* a large compressed matrix, given by the places and values of its entries (none of them zero) in row-major order
Coo == /\ Is("coo")
       /\ Chk( /\ Ev.shape = Ev.dims
               /\ Ev.rows2 = Ev.rows /\ Ev.cols2 = Ev.cols /\ Ev.vals2 = Ev.vals)
       /\ UNCHANGED ws
Same == Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Init == TInit(W0)
Step == Trip \/ Sparse \/ Raw \/ Coo \/ Same
Next == (Step /\ Advance) \/ Done
=============================================================================
