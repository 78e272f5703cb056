------------------------------- MODULE Intern -------------------------------
(* The store of compiled integrands, shared by all processes of a machine.   *)
(* A process that samples an expression e looks for e in the store, else     *)
(* compiles e into a file of its own and moves it into the store, then loads *)
(* the entry.  Processes may be killed at any step; what they leave behind   *)
(* stays.  A compiler whose process was killed may live on.                  *)
EXTENDS Num, Json
CONSTANTS Procs, Exprs, Calls, Len_, Leftovers
VARIABLES so, tmp, pc, cur, got, left, known, hist
vars == <<so, tmp, pc, cur, got, left, known, hist>>
None == 0
Half == -1
\* so[e]: None, Half, or the expression the entry computes
\* pc: idle, chk, g1 (compiler started), g2 (half written), g3 (written), mv, load, dead
Init == /\ so \in [Exprs -> IF Leftovers THEN {None, Half} ELSE {None}]
        /\ tmp = [p \in Procs |-> None]
        /\ pc = [p \in Procs |-> "idle"] /\ cur = [p \in Procs |-> 0] /\ got = [p \in Procs |-> 0]
        /\ left = [p \in Procs |-> Calls] /\ known = {}
        /\ hist = <<[op |-> "init", half |-> SetToSeq({e \in Exprs : so[e] = Half})]>>
Note(h) == hist' = IF Len_ = 0 THEN hist ELSE Append(hist, h)
Quiet == hist' = hist
\* the entry found there when the call starts
Begin(p, e) == /\ pc[p] = "idle" /\ left[p] > 0
               /\ pc' = [pc EXCEPT ![p] = "chk"] /\ cur' = [cur EXCEPT ![p] = e]
               /\ got' = [got EXCEPT ![p] = 0] /\ left' = [left EXCEPT ![p] = @ - 1]
               /\ Note([op |-> "start", p |-> p, e |-> e]) /\ UNCHANGED <<so, tmp, known>>
Look(p) == /\ pc[p] = "chk" /\ pc' = [pc EXCEPT ![p] = IF so[cur[p]] = None THEN "g1" ELSE "load"]
           /\ Quiet /\ UNCHANGED <<so, tmp, cur, got, left, known>>
Write1(p) == /\ pc[p] = "g1" /\ pc' = [pc EXCEPT ![p] = "g2"] /\ tmp' = [tmp EXCEPT ![p] = Half]
             /\ Note([op |-> "adv", p |-> p]) /\ UNCHANGED <<so, cur, got, left, known>>
Write2(p) == /\ pc[p] = "g2" /\ pc' = [pc EXCEPT ![p] = "g3"] /\ tmp' = [tmp EXCEPT ![p] = cur[p]]
             /\ Note([op |-> "adv", p |-> p]) /\ UNCHANGED <<so, cur, got, left, known>>
Return(p) == /\ pc[p] = "g3" /\ pc' = [pc EXCEPT ![p] = "mv"]
             /\ Note([op |-> "adv", p |-> p]) /\ UNCHANGED <<so, tmp, cur, got, left, known>>
Move(p) == /\ pc[p] = "mv" /\ pc' = [pc EXCEPT ![p] = "load"] /\ so' = [so EXCEPT ![cur[p]] = tmp[p]]
           /\ tmp' = [tmp EXCEPT ![p] = None] /\ Quiet /\ UNCHANGED <<cur, got, left, known>>
\* an entry that cannot be loaded is built again
Load(p) == /\ pc[p] = "load"
           /\ IF so[cur[p]] \in {None, Half} THEN pc' = [pc EXCEPT ![p] = "g1"] /\ UNCHANGED <<got, known>>
              ELSE /\ pc' = [pc EXCEPT ![p] = "idle"] /\ got' = [got EXCEPT ![p] = so[cur[p]]]
                   /\ known' = known \cup {cur[p]}
           /\ Quiet /\ UNCHANGED <<so, tmp, cur, left>>
\* killed; the name of its temporary file is never used again (another process identifier)
Kill(p) == /\ pc[p] \in {"g1", "g2", "g3"}
           /\ pc' = [pc EXCEPT ![p] = "dead"] /\ got' = [got EXCEPT ![p] = 0]
           /\ \E how \in {"all", "one"} : Note([op |-> "kill", p |-> p, how |-> how])
           /\ UNCHANGED <<so, tmp, cur, left, known>>
KillQuiet(p) == /\ Len_ = 0 /\ pc[p] \in {"chk", "mv", "load", "idle"} /\ pc' = [pc EXCEPT ![p] = "dead"]
                /\ got' = [got EXCEPT ![p] = 0] /\ Quiet /\ UNCHANGED <<so, tmp, cur, left, known>>
\* the user starts another process
Revive(p) == /\ pc[p] = "dead" /\ left[p] > 0 /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ tmp' = [tmp EXCEPT ![p] = None] /\ Quiet /\ UNCHANGED <<so, cur, got, left, known>>
Hidden(p) == Look(p) \/ Move(p) \/ Load(p)
\* in generated schedules a process runs on until it is next stopped at the compiler
Busy == {p \in Procs : pc[p] \in {"chk", "mv", "load"}}
Next == \/ \E p \in Procs : Hidden(p)
        \/ /\ Len_ = 0 \/ (Busy = {} /\ Len(hist) < Len_)
           /\ \E p \in Procs : (\E e \in Exprs : Begin(p, e)) \/ Write1(p) \/ Write2(p) \/ Return(p)
                               \/ Kill(p) \/ KillQuiet(p) \/ Revive(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Hidden(p) \/ Write1(p) \/ Write2(p) \/ Return(p))

\* a process only ever gets its own expression
Own == \A p \in Procs : got[p] # 0 => got[p] = cur[p]
\* no entry ever holds another expression, and none becomes incomplete
Entries == \A e \in Exprs : so[e] \in {None, Half, e}
NeverWorse == [][\A e \in Exprs : so[e] = e => so'[e] = e]_vars
\* once an expression was sampled, nobody starts to compile it
Reused == [][\A p \in Procs : pc[p] = "chk" /\ pc'[p] = "g1" => cur[p] \notin known]_vars
\* whoever is not killed gets there
Answers == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] \in {"idle", "dead"})
Emit == Len_ = 0 \/ Len(hist) < Len_ \/ Busy # {} \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
