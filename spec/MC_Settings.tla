---------------------------- MODULE MC_Settings ----------------------------
(* Calls that pass through the layers of the library: discretize_op calls    *)
(* varfd, which calls varf (all with the effective sparse option), and the   *)
(* innermost layer may keep its result in the cache.  User settings change   *)
(* only between calls.                                                       *)
EXTENDS Settings
CONSTANTS Requests, MaxCalls
VARIABLES st, stack, memo, out, calls, seen
vars == <<st, stack, memo, out, calls, seen>>
Over == [{"sparse", "tensorize"} -> {-1, 0, 1}]
Layers == <<"discretize_op", "varfd", "varf">>
Init == /\ st = [n \in Names |-> IF n = "tensorize" THEN 1 ELSE 0]
        /\ stack = <<>> /\ memo = {} /\ out = {} /\ calls = 0 /\ seen = st
Set == /\ stack = <<>> /\ \E n \in {"sparse", "cache", "tensorize"} : st' = [st EXCEPT ![n] = 1 - @]
       /\ seen' = st' /\ UNCHANGED <<stack, memo, out, calls>>
Enter == /\ stack = <<>> /\ calls < MaxCalls /\ calls' = calls + 1
         /\ \E r \in Requests, o \in Over, k \in 1 .. 3 :
              stack' = <<[req |-> r, layer |-> k, over |-> o, want |-> Eff(st, o, "sparse")]>>
         /\ UNCHANGED <<st, memo, out, seen>>
Top == stack[Len(stack)]
\* the next layer is given the effective option explicitly
Down == /\ stack # <<>> /\ Top.layer < 3
        /\ stack' = Append(stack, [req |-> Top.req, layer |-> Top.layer + 1, over |-> [Top.over EXCEPT !["sparse"] = Eff(st, Top.over, "sparse")],
                                   want |-> Eff(st, Top.over, "sparse")])
        /\ UNCHANGED <<st, memo, out, calls, seen>>
\* the innermost layer: served from the cache, or computed (and stored)
Key(f) == <<f.req, Eff(st, f.over, "sparse")>>
Return == /\ stack # <<>> /\ Top.layer = 3
          /\ LET f == Top  hit == st["cache"] = 1 /\ \E e \in memo : e.key = Key(f)
                 val == IF hit THEN (CHOOSE e \in memo : e.key = Key(f)).val
                        ELSE [req |-> f.req, sparse |-> Eff(st, f.over, "sparse")]
             IN /\ memo' = IF st["cache"] = 1 THEN memo \cup {[key |-> Key(f), val |-> val]} ELSE memo
                /\ out' = out \cup {[req |-> stack[1].req, want |-> stack[1].want, val |-> val]}
          /\ stack' = <<>> /\ UNCHANGED <<st, calls, seen>>
Next == Set \/ Enter \/ Down \/ Return
Spec == Init /\ [][Next]_vars
Right == \A o \in out : o.val = [req |-> o.req, sparse |-> o.want]
OnlyUser == st = seen
=============================================================================
