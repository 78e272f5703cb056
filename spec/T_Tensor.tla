------------------------------ MODULE T_Tensor ------------------------------
(* Sessions over coefficient arrays (C04, C05, C06).  Positions of restricted *)
(* or embedded multi-indices come with the event as certificates (at[i] is    *)
(* the 1-based position, 0 = not in the list) and are verified here.          *)
EXTENDS TensorAlg, TraceBase

W0 == <<>>
IsList(list, kind, d, n) == Len(list) = Count(kind, d, n)

\* certificate: part p, restriction of every target index is where at says
CertOK(part, all, list) ==
  /\ Len(part.at) = Len(list)
  /\ LET rel == RelPos(all, part.dirs) IN
     \A i \in 1 .. Len(list) : /\ part.at[i] \in 1 .. Len(part.list)
                               /\ part.list[part.at[i]] = Pick(list[i], rel)

PartsOK(parts, all, kind, deg) ==
  /\ \A p \in 1 .. Len(parts) : Increasing(parts[p].dirs)
                                /\ IsList(parts[p].list, kind, Len(parts[p].dirs), deg)
  /\ \A p, q \in 1 .. Len(parts) : p # q => Range(parts[p].dirs) \cap Range(parts[q].dirs) = {}
  /\ Range(all) = UNION { Range(parts[p].dirs) : p \in 1 .. Len(parts) }
  /\ Increasing(all)

TVec == /\ Is("tvec")
        /\ Chk( /\ PartsOK(Ev.parts, Ev.all, Ev.kind, Ev.deg)
                /\ IsList(Ev.list, Ev.kind, Len(Ev.all), Ev.deg)
                /\ \A p \in 1 .. Len(Ev.parts) : CertOK(Ev.parts[p], Ev.all, Ev.list)
                /\ Ev.resdirs = Ev.all
                /\ Len(Ev.res) = Len(Ev.list)
                /\ \A i \in 1 .. Len(Ev.list) :
                     Ev.res[i] = ProdSeq([p \in 1 .. Len(Ev.parts) |->
                                           Ev.parts[p].vals[Ev.parts[p].at[i]]]))
        /\ UNCHANGED ws

\* matrices; res is dense (rows) or, for sparse results, the dense image plus the flag
TMat == /\ Is("tmat")
        /\ Ev.issparse = Ev.wantsparse
        /\ Chk( /\ PartsOK(Ev.parts, Ev.all, Ev.kind, Ev.deg)
                /\ IsList(Ev.list, Ev.kind, Len(Ev.all), Ev.deg)
                /\ \A p \in 1 .. Len(Ev.parts) : CertOK(Ev.parts[p], Ev.all, Ev.list)
                /\ Ev.resdirs = Ev.all
                /\ Len(Ev.res) = Len(Ev.list)
                /\ \A i \in 1 .. Len(Ev.list) : Len(Ev.res[i]) = Len(Ev.list)
                /\ \A i, j \in 1 .. Len(Ev.list) :
                     Ev.res[i][j] = ProdSeq([p \in 1 .. Len(Ev.parts) |->
                               Ev.parts[p].vals[Ev.parts[p].at[i]][Ev.parts[p].at[j]]]))
        /\ UNCHANGED ws

ZeroBut(m, d) == \A i \in 1 .. Len(m) : i # d => m[i] = 0
AgreeBut(a, b, d) == \A i \in 1 .. Len(a) : i # d => a[i] = b[i]

\* one vector / matrix along direction dir (1-based) of a dim-dimensional space
TDirVec == /\ Is("tdirvec")
           /\ Chk( /\ IsList(Ev.list, Ev.kind, Ev.dim, Ev.deg)
                   /\ Len(Ev.res) = Len(Ev.list)
                   /\ \A i \in 1 .. Len(Ev.list) :
                        Ev.res[i] = IF ZeroBut(Ev.list[i], Ev.dir)
                                    THEN Ev.vals[Ev.list[i][Ev.dir] + 1] ELSE 0)
           /\ UNCHANGED ws
TDirMat == /\ Is("tdirmat")
           /\ Ev.issparse = Ev.wantsparse
           /\ Chk( /\ IsList(Ev.list, Ev.kind, Ev.dim, Ev.deg)
                   /\ Len(Ev.res) = Len(Ev.list)
                   /\ \A i \in 1 .. Len(Ev.list) : Len(Ev.res[i]) = Len(Ev.list)
                   /\ \A i, j \in 1 .. Len(Ev.list) :
                        Ev.res[i][j] = IF AgreeBut(Ev.list[i], Ev.list[j], Ev.dir)
                                       THEN Ev.vals[Ev.list[i][Ev.dir] + 1][Ev.list[j][Ev.dir] + 1]
                                       ELSE 0)
           /\ UNCHANGED ws

\* scalars multiply
TScal == /\ Is("tscal") /\ Ev.res = ProdSeq(Ev.vals) /\ UNCHANGED ws

EmbedOK == /\ Increasing(Ev.all) /\ Increasing(Ev.dirs) /\ Range(Ev.dirs) \subseteq Range(Ev.all)
           /\ IsList(Ev.list, Ev.kind, Len(Ev.all), Ev.deg)
           /\ IsList(Ev.plist, Ev.kind, Len(Ev.dirs), Ev.deg)
           /\ Len(Ev.at) = Len(Ev.plist)
           /\ \A i \in 1 .. Len(Ev.plist) :
                LET m == Embed(Ev.plist[i], Ev.all, Ev.dirs) IN
                IF Ev.at[i] = 0 THEN ~InSet(Ev.kind, Ev.deg, m)
                ELSE Ev.at[i] \in 1 .. Len(Ev.list) /\ Ev.list[Ev.at[i]] = m

\* entries whose embedding is outside the source set (rectangle without its
\* first direction) do not exist in the source: nothing is required of them
PVec == /\ Is("pvec")
        /\ Chk( /\ EmbedOK /\ Len(Ev.res) = Len(Ev.plist)
                /\ Ev.resdirs = Ev.dirs
                /\ \A i \in 1 .. Len(Ev.plist) : Ev.at[i] # 0 => Ev.res[i] = Ev.vals[Ev.at[i]])
        /\ UNCHANGED ws
PMat == /\ Is("pmat")
        /\ Chk( /\ EmbedOK /\ Len(Ev.res) = Len(Ev.plist)
                /\ Ev.resdirs = Ev.dirs
                /\ \A i \in 1 .. Len(Ev.plist) : Len(Ev.res[i]) = Len(Ev.plist)
                /\ \A i, j \in 1 .. Len(Ev.plist) : Ev.at[i] # 0 /\ Ev.at[j] # 0
                        => Ev.res[i][j] = Ev.vals[Ev.at[i]][Ev.at[j]])
        /\ UNCHANGED ws

\* position, degree and set of a projected object
PMeta == /\ Is("pmeta")
         /\ Chk( /\ Ev.resdirs = Ev.dirs /\ Ev.reskind = Ev.kind /\ SameSet(Ev.kind, Ev.deg, Ev.resdeg)
                 /\ Ev.resmean = Pick(Ev.mean, RelPos(Ev.all, Ev.dirs))
                 /\ Ev.resvar = Pick(Ev.var, RelPos(Ev.all, Ev.dirs))
                 /\ Ev.restypes = Pick(Ev.types, RelPos(Ev.all, Ev.dirs)))
         /\ UNCHANGED ws

Inner == /\ Is("inner")
         /\ Chk( LET dout == SortedLabels((Range(Ev.d1) \ Range(Ev.d2)) \cup (Range(Ev.d2) \ Range(Ev.d1)))
                 IN /\ Increasing(Ev.d1) /\ Increasing(Ev.d2)
                    /\ Ev.dout = dout
                    /\ IsList(Ev.l1, Ev.kind, Len(Ev.d1), Ev.deg)
                    /\ IsList(Ev.l2, Ev.kind, Len(Ev.d2), Ev.deg)
                    /\ IF dout = <<>> THEN Ev.lout = << <<>> >> ELSE IsList(Ev.lout, Ev.kind, Len(dout), Ev.deg)
                    /\ Len(Ev.res) = Len(Ev.lout)
                    /\ \A i \in 1 .. Len(Ev.lout) :
                         Ev.res[i] = InnerAt(Ev.kind, Ev.deg, Ev.d1, Ev.l1, Ev.c1,
                                             Ev.d2, Ev.l2, Ev.c2, dout, Ev.lout[i]))
         /\ UNCHANGED ws

\* a fully contracted product is a number: it scales what it multiplies, and prints as itself
Scale == /\ Is("scale")
         /\ Chk( /\ Len(Ev.by) = 1 /\ Len(Ev.res) = Len(Ev.list) /\ Len(Ev.c) = Len(Ev.list)
                 /\ \A i \in 1 .. Len(Ev.c) : Ev.res[i] = Ev.by[1] * Ev.c[i]
                 /\ Ev.resdirs = Ev.dirs)
         /\ UNCHANGED ws
Scalar == /\ Is("scalar") /\ Len(Ev.c) = 1 /\ Ev.res = Ev.c /\ UNCHANGED ws

Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws

Init == TInit(W0)
Step == TVec \/ TMat \/ TDirVec \/ TDirMat \/ TScal \/ PVec \/ PMat \/ PMeta \/ Inner \/ Scale \/ Scalar \/ Refused
Next == (Step /\ Advance) \/ Done
=============================================================================
