----------------------------- MODULE T_Algebra -----------------------------
(* Recorded programs over registers of series and matrices (C21).  An        *)
(* observation o holds the space, the listing and the coefficients.          *)
EXTENDS Algebra, Galerkin, TraceBase
W0 == <<>>
Given(o) == [dirs |-> o.dirs, diag |-> TRUE,
             at |-> [i \in 1 .. Len(o.dirs) |-> [mean |-> o.mean[i], var |-> o.var[i], type |-> o.types[i]]],
             kind |-> o.kind, deg |-> o.deg, fac |-> o.fac]
ObsSp(sp, o) == LET g == Given(o) IN SameSpace(sp, g) /\ g.fac = sp.fac /\ ListOf(sp, o.list)
SameV(x, o) == ObsSp(x.sp, o) /\ o.k = 0 /\ Len(o.c) = Len(o.list) /\ \A i \in 1 .. Len(o.list) : o.c[i] = VAt(x, o.list[i])
SameM(x, o) == /\ ObsSp(x.sp, o) /\ o.k = 1 /\ Len(o.c) = Len(o.list)
               /\ \A i \in 1 .. Len(o.list) : Len(o.c[i]) = Len(o.list)
               /\ \A i, j \in 1 .. Len(o.list) : o.c[i][j] = MAt(x, o.list[i], o.list[j])
\* the observed object is the expected one, which becomes the next register
PutV(sp, F(_)) == LET o == Ev.o IN
  /\ Chk(ObsSp(sp, o) /\ o.k = 0 /\ Len(o.c) = Len(o.list) /\ \A i \in 1 .. Len(o.list) : o.c[i] = F(o.list[i]))
  /\ ws' = Append(ws, MkObj(0, sp, o.list, o.c))
PutM(sp, G(_, _)) == LET o == Ev.o IN
  /\ Chk(ObsSp(sp, o) /\ o.k = 1 /\ Len(o.c) = Len(o.list) /\ (\A i \in 1 .. Len(o.list) : Len(o.c[i]) = Len(o.list))
         /\ \A i, j \in 1 .. Len(o.list) : o.c[i][j] = G(o.list[i], o.list[j]))
  /\ ws' = Append(ws, MkObj(1, sp, o.list, o.c))
Refuse == Ev.raised = 1 /\ UNCHANGED ws
Ok == Ev.raised = 0
A == ws[Ev.a]
B == ws[Ev.b]
New == /\ Is("new")
       /\ LET g == Ev.g  sp == Given(g)  x == MkObj(g.k, sp, g.list, g.c)
          IN Chk(ListOf(sp, g.list) /\ IF g.k = 0 THEN SameV(x, Ev.o) ELSE SameM(x, Ev.o)) /\ ws' = Append(ws, x)
Add == Is("add") /\ IF ~CanAdd(A, B) THEN Refuse
                    ELSE Ok /\ IF A.k = 0 THEN PutV(A.sp, LAMBDA m : AddV(A, B, Ev.s, m))
                               ELSE PutM(A.sp, LAMBDA m, p : AddM(A, B, Ev.s, m, p))
Scale == Is("scale") /\ Ok /\ IF A.k = 0 THEN PutV(A.sp, LAMBDA m : Ev.s * VAt(A, m))
                              ELSE PutM(A.sp, LAMBDA m, p : Ev.s * MAt(A, m, p))
\* division: the result times the divisor
Div == Is("div") /\ Ok /\ Chk(LET o == Ev.o IN ObsSp(A.sp, o) /\ Len(o.c) = Len(o.list)
                              /\ \A i \in 1 .. Len(o.list) : o.c[i] = VAt(A, o.list[i])) /\ UNCHANGED ws
Apply == Is("apply") /\ IF ~CanApply(A, B) THEN Refuse
                        ELSE Ok /\ PutV([B.sp EXCEPT !.fac = A.sp.fac], LAMBDA m : ApplyAt(A, B, m))
Mul == Is("mul") /\ IF ~CanMul(A, B) THEN Refuse
                    ELSE Ok /\ LET sp == MulSp(A, B) IN
                         IF A.k = 0 THEN PutV(sp, LAMBDA m : MulV(A, B, sp, m))
                         ELSE PutM(sp, LAMBDA m, p : MulM(A, B, sp, m, p))
Cross == Is("cross") /\ IF ~CanCross(A, Ev.n) THEN Refuse
                        ELSE Ok /\ IF A.k = 0 THEN PutV(CrossSp(A, Ev.n), LAMBDA m : VAt(A, m))
                                   ELSE PutM(CrossSp(A, Ev.n), LAMBDA m, p : MAt(A, m, p))
Sub == Is("sub") /\ IF ~CanSub(A, Ev.n) THEN Refuse
                    ELSE Ok /\ IF A.k = 0 THEN PutV(SubSp(A, Ev.n), LAMBDA m : SubV(A, m))
                               ELSE PutM(SubSp(A, Ev.n), LAMBDA m, p : MAt(A, m, p))
Proj == Is("proj") /\ IF ~CanProj(A, Ev.dirs) THEN Refuse
                      ELSE Ok /\ IF A.k = 0 THEN PutV(ProjSp(A, Ev.dirs), LAMBDA m : ProjV(A, Ev.dirs, m))
                                 ELSE PutM(ProjSp(A, Ev.dirs), LAMBDA m, p : ProjM(A, Ev.dirs, m, p))
\* solving: the result o, observed N times itself, is mapped to N times the right-hand side;
\* with a removed vector it is orthogonal to it
Solve == Is("solve") /\ IF ~CanApply(A, B) THEN Refuse
   ELSE Ok /\ UNCHANGED ws /\
        Chk(LET o == Ev.o  sp == [B.sp EXCEPT !.fac = A.sp.fac]  x == MkObj(0, sp, o.list, o.c)
            IN /\ ObsSp(sp, o) /\ o.k = 0 /\ Len(o.c) = Len(o.list)
               /\ \A m \in Range(o.list) : ApplyAt(A, x, m) = Ev.N * VAt(B, m)
               /\ Ev.w # 0 => SumSeq([i \in 1 .. Len(o.list) |-> o.c[i] * VAt(ws[Ev.w], o.list[i])]) = 0)
\* eigenpairs: the residual A v - lambda v vanishes, v has norm 1
Eig == Is("eig") /\ Chk(/\ Ev.n = Ev.k
                        /\ \A i \in 1 .. Len(Ev.res) : Ev.norms[i] = 1 /\ \A j \in 1 .. Len(Ev.res[i]) : Ev.res[i][j] = 0) /\ UNCHANGED ws
Equal == Is("eq") /\ (Ev.res = 1) = EqualObj(A, B) /\ (Ev.ne = 1) = ~EqualObj(A, B) /\ UNCHANGED ws
\* the registers are still what they were
Again == Is("again") /\ Chk(IF A.k = 0 THEN SameV(A, Ev.o) ELSE SameM(A, Ev.o)) /\ UNCHANGED ws
Refused == Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws
\* a series asked for with so many decimals (res counts them, c is in hundredths of them;
\* the drivers avoid halves), and the array it was made from
Signif == /\ Is("signif")
          /\ Chk(/\ Len(Ev.res) = Len(Ev.c) /\ Ev.after = Ev.c
                 /\ \A i \in 1 .. Len(Ev.c) : 2 * Abs(100 * Ev.res[i] - Ev.c[i]) < 100)
          /\ UNCHANGED ws
\* the function of a Hermite series, at integer multiples of the deviation from the mean
Fun == Is("fun") /\ Chk(LET N == 1 + MaxSeq([i \in 1 .. Len(Ev.list) |-> MaxSeq(Ev.list[i])])
                        IN \A q \in 1 .. Len(Ev.pts) :
                           LET T == [i \in 1 .. Len(Ev.pts[q]) |-> HeSeq(Ev.pts[q][i], N)]
                           IN Ev.vals[q] = SumSeq([i \in 1 .. Len(Ev.list) |->
                                Ev.c[i] * ProdSeq([d \in 1 .. Len(Ev.list[i]) |-> T[d][Ev.list[i][d] + 1]])])) /\ UNCHANGED ws
Init == TInit(W0)
Step == Signif \/ New \/ Add \/ Scale \/ Div \/ Apply \/ Mul \/ Cross \/ Sub \/ Proj \/ Solve \/ Eig \/ Equal \/ Again \/ Refused \/ Fun
Next == (Step /\ Advance) \/ Done
=============================================================================
