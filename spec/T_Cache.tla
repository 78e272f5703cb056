------------------------------ MODULE T_Cache ------------------------------
(* Recorded histories of the real cache (C16, C17).  Keys are numbered by    *)
(* the recorder: equal arguments, same number; Ev.n distinct keys.           *)
EXTENDS Cache, TraceBase
(* Whether a process that died had written its entry is not observed: the    *)
(* store holds, per key, the set of states the entry may be in.              *)
W0 == [on |-> FALSE, store |-> <<>>, ver |-> <<>>]
Start == /\ Is("start") /\ ws' = [on |-> Ev.on = 1, store |-> [k \in 1 .. Ev.n |-> {Absent}], ver |-> [k \in 1 .. Ev.n |-> 0]]
Set == Is("set") /\ ws' = [ws EXCEPT !.on = (Ev.on = 1)]
Change == Is("change") /\ ws' = [ws EXCEPT !.ver[Ev.k] = 1 - @]
Damage == Is("damage") /\ ws' = [ws EXCEPT !.store[Ev.k] = {Damaged}]
Wipe == Is("remove") /\ ws' = [ws EXCEPT !.store[Ev.k] = {Absent}]
\* died while writing: nothing, part of the entry, or all of it is there
Crash == /\ Is("crash")
         /\ ws' = [ws EXCEPT !.store[Ev.k] = @ \cup {Damaged, ws.ver[Ev.k]}]
\* the possible outcomes of a call that agree with what was observed
Agree == LET O(s) == Outcome(s, ws.ver[Ev.k], Use(ws.on, Ev.use), Ev.quiet = 1, Ev.storable = 1)
         IN {O(s).st : s \in {t \in ws.store[Ev.k] : /\ Ev.exec = O(t).exec
                                                    /\ Ev.ret = O(t).ret      \* version recognised by the recorder, Err = -3
                                                    /\ (Ev.written = 1) = (O(t).st # t)}}
Call == /\ Is("call") /\ Agree # {} /\ ws' = [ws EXCEPT !.store[Ev.k] = Agree]
\* a call whose function raises: the exception comes through, nothing is stored
Raising == /\ Is("raising")
           /\ LET ok(s) == IF s >= 0 /\ Use(ws.on, Ev.use) THEN Ev.exec = 0 /\ Ev.ret = s
                           ELSE Ev.exec = 1 /\ Ev.ret = -4
                  poss == {s \in ws.store[Ev.k] : ok(s)}
              IN poss # {} /\ ws' = [ws EXCEPT !.store[Ev.k] = poss]
           /\ Ev.written = 0
\* the settings and arguments are left alone, unsupported arguments are refused
Same == /\ Is("same") /\ Chk(Ev.a = Ev.b) /\ UNCHANGED ws
Refused == /\ Is("refused") /\ Ev.raised = 1 /\ UNCHANGED ws
Init == TInit(W0)
Step == Start \/ Set \/ Change \/ Damage \/ Wipe \/ Crash \/ Call \/ Raising \/ Same \/ Refused
Next == (Step /\ Advance) \/ Done
=============================================================================
