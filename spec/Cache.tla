------------------------------- MODULE Cache -------------------------------
(* The result cache.  For every call key k (function and arguments):         *)
(*   store[k]  Absent, Damaged, or the version (>= 0) of the stored result   *)
(*   ver[k]    the version of the result the function would give now         *)
(* on is the global setting; a call may override it.                         *)
EXTENDS Num
Absent == -1
Damaged == -2
Use(on, ov) == IF ov = "n" THEN on ELSE ov = "t"
\* what a call does: executed or not, result (a version, or Err), new stored entry
Err == -3
\* quiet: a disagreeing entry is not reported; storable: the result can be put in a file
Outcome(st, v, use, quiet, storable) ==
  IF st >= 0 /\ use THEN [exec |-> 0, ret |-> st, st |-> st]
  ELSE IF st >= 0 THEN [exec |-> 1, ret |-> IF st # v /\ ~quiet THEN Err ELSE v, st |-> st]
  ELSE [exec |-> 1, ret |-> v, st |-> IF use /\ storable THEN v ELSE st]
=============================================================================
