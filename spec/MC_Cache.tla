------------------------------ MODULE MC_Cache ------------------------------
(* The cache under every history of calls, setting changes, changes of the   *)
(* underlying function, damage, removal and crashes while writing.  With     *)
(* Emit as invariant and -simulate, complete histories are printed and       *)
(* replayed against the real cache.                                          *)
EXTENDS Cache, Json
CONSTANTS Keys, Faults, Len_
VARIABLES on, store, ver, last, hist
vars == <<on, store, ver, last, hist>>
None == [exec |-> 0, ret |-> 0, st |-> 0, k |-> 0, use |-> FALSE]
Init == on \in BOOLEAN /\ store = [k \in Keys |-> Absent] /\ ver = [k \in Keys |-> 0]
        /\ last = None /\ hist = <<[op |-> "set", on |-> IF on THEN 1 ELSE 0]>>
Note(h) == hist' = IF Len_ = 0 THEN hist ELSE Append(hist, h)
Call(k, ov) == LET u == Use(on, ov) o == Outcome(store[k], ver[k], u, FALSE, TRUE)
               IN /\ store' = [store EXCEPT ![k] = o.st]
                  /\ last' = [exec |-> o.exec, ret |-> o.ret, st |-> o.st, k |-> k, use |-> u]
                  /\ Note([op |-> "call", k |-> k, use |-> ov]) /\ UNCHANGED <<on, ver>>
Set == /\ on' = ~on /\ last' = None /\ Note([op |-> "set", on |-> IF on' THEN 1 ELSE 0]) /\ UNCHANGED <<store, ver>>
Change(k) == /\ ver' = [ver EXCEPT ![k] = 1 - @] /\ last' = None /\ Note([op |-> "change", k |-> k]) /\ UNCHANGED <<on, store>>
Damage(k, how) == /\ store[k] # Absent /\ store' = [store EXCEPT ![k] = Damaged] /\ last' = None
                  /\ Note([op |-> "damage", k |-> k, how |-> how]) /\ UNCHANGED <<on, ver>>
Wipe(k) == /\ store[k] # Absent /\ store' = [store EXCEPT ![k] = Absent] /\ last' = None
             /\ Note([op |-> "remove", k |-> k]) /\ UNCHANGED <<on, ver>>
\* a process that uses the cache dies while writing the entry
Crash(k) == /\ store[k] < 0 /\ last' = None
            /\ \E s \in {Absent, Damaged, ver[k]} : store' = [store EXCEPT ![k] = IF s = Absent THEN store[k] ELSE s]
            /\ Note([op |-> "crash", k |-> k]) /\ UNCHANGED <<on, ver>>
Next == /\ Len_ = 0 \/ Len(hist) < Len_
        /\ \/ \E k \in Keys : \E ov \in {"n", "t", "f"} : Call(k, ov)
           \/ Set
           \/ \E k \in Keys : Change(k)
           \/ Faults /\ \E k \in Keys : Wipe(k) \/ Crash(k) \/ \E how \in {"trunc", "empty", "junk"} : Damage(k, how)
Spec == Init /\ [][Next]_vars

\* the result is that of the function now, or of a complete earlier execution of the same call
Right == last.k # 0 => last.ret \in {ver[last.k], Err} \/ (last.exec = 0 /\ last.use)
\* an error is only ever the report of a disagreement, with the cache out of use
ErrorsAreDisagreements == last.k # 0 /\ last.ret = Err => ~last.use /\ store[last.k] >= 0 /\ store[last.k] # ver[last.k]
\* in use, a call leaves a complete entry behind; out of use it changes nothing
Repairs == [][\A k \in Keys : last'.k = k /\ last' # last =>
                 IF last'.use THEN store'[k] >= 0 ELSE store'[k] = store[k]]_vars
\* a complete entry is only ever served without executing
Served == last.k # 0 /\ last.exec = 0 => store[last.k] = last.ret
Emit == Len(hist) < Len_ \/ Len_ = 0 \/ PrintT("HIST " \o ToJson(hist))
=============================================================================
