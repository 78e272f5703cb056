---------------------------- MODULE T_Positions ----------------------------
(* Recorded programs over positions and quadratures (C20).  ws.p and ws.q    *)
(* are the registers.  Observations o: dirs, means, covariance (rows),       *)
(* types, diag, sq = factor * factor^T; for quadratures nodes, weights and   *)
(* factor per direction.                                                     *)
EXTENDS Positions, TraceBase
W0 == [p |-> <<>>, q |-> <<>>]
ObsP(p, o) == LET n == Len(p.dirs) IN
  /\ o.dirs = p.dirs /\ o.dim = n /\ (o.diag = 1) = p.diag
  /\ o.mean = [i \in 1 .. n |-> p.at[i].mean]
  /\ o.types = [i \in 1 .. n |-> p.at[i].type]
  /\ o.sq = o.cov
  /\ Len(o.cov) = n
  /\ \A i \in 1 .. n : o.cov[i][i] = p.at[i].var
  /\ p.diag => \A i, j \in 1 .. n : i # j => o.cov[i][j] = 0
ObsQ(q, o) == /\ ObsP(q.pos, o) /\ o.nodes = q.nodes /\ o.weights = q.weights /\ o.factor = q.factor
              /\ o.four = [i \in 1 .. Len(q.pos.dirs) |-> q.pos.at[i].type]
PutP(p) == Chk(ObsP(p, Ev.o)) /\ ws' = [ws EXCEPT !.p = Append(@, p)]
PutQ(q) == Chk(ObsQ(q, Ev.o)) /\ ws' = [ws EXCEPT !.q = Append(@, q)]
Regs(s) == [i \in 1 .. Len(Ev.args) |-> s[Ev.args[i]]]
Given == [dirs |-> Ev.dirs, diag |-> Ev.diag = 1,
          at |-> [i \in 1 .. Len(Ev.dirs) |-> [mean |-> Ev.mean[i], var |-> Ev.var[i], type |-> Ev.types[i]]]]
NewP == Is("newp") /\ PutP(Given)
NewQ == Is("newq") /\ PutQ([pos |-> Given, nodes |-> Ev.nodes, weights |-> Ev.weights, factor |-> Ev.factor])
TensP == Is("tensp") /\ IF CanTensor(Regs(ws.p)) THEN Ev.raised = 0 /\ PutP(Tensor(Regs(ws.p)))
                        ELSE Ev.raised = 1 /\ UNCHANGED ws
ProjP == Is("projp") /\ IF CanProject(ws.p[Ev.a], Ev.dirs) THEN Ev.raised = 0 /\ PutP(Project(ws.p[Ev.a], Ev.dirs))
                        ELSE Ev.raised = 1 /\ UNCHANGED ws
EqP == Is("eqp") /\ (Ev.res = 1) = (ws.p[Ev.a] = ws.p[Ev.b]) /\ (Ev.ne = 1) = (ws.p[Ev.a] # ws.p[Ev.b]) /\ UNCHANGED ws
QPos(qs) == [i \in 1 .. Len(qs) |-> qs[i].pos]
TensQ == Is("tensq") /\ IF CanTensor(QPos(Regs(ws.q))) THEN Ev.raised = 0 /\ PutQ(QTensor(Regs(ws.q)))
                        ELSE Ev.raised = 1 /\ UNCHANGED ws
ProjQ == Is("projq") /\ IF CanProject(ws.q[Ev.a].pos, Ev.dirs) THEN Ev.raised = 0 /\ PutQ(QProject(ws.q[Ev.a], Ev.dirs))
                        ELSE Ev.raised = 1 /\ UNCHANGED ws
EqQ == Is("eqq") /\ (Ev.res = 1) = (ws.q[Ev.a] = ws.q[Ev.b]) /\ (Ev.ne = 1) = (ws.q[Ev.a] # ws.q[Ev.b]) /\ UNCHANGED ws
\* composite quadratures: lists of registers with weights, possibly projected
Comp(c) == [i \in 1 .. Len(c.qs) |-> <<IF c.dirs = <<>> THEN ws.q[c.qs[i]] ELSE QProject(ws.q[c.qs[i]], c.dirs), c.w[i]>>]
EqC == Is("eqc") /\ (Ev.res = 1) = (Comp(Ev.x) = Comp(Ev.y)) /\ UNCHANGED ws
\* the registers are still what they were
AgainP == Is("againp") /\ Chk(ObsP(ws.p[Ev.a], Ev.o)) /\ UNCHANGED ws
AgainQ == Is("againq") /\ Chk(ObsQ(ws.q[Ev.a], Ev.o)) /\ UNCHANGED ws
Refused == Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws
Same == Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Init == TInit(W0)
Step == NewP \/ NewQ \/ TensP \/ ProjP \/ EqP \/ TensQ \/ ProjQ \/ EqQ \/ EqC \/ AgainP \/ AgainQ \/ Refused \/ Same
Next == (Step /\ Advance) \/ Done
=============================================================================
