------------------------------ MODULE Settings ------------------------------
(* The global settings, and how one call sees them: an argument of the call  *)
(* (-1 = not given) overrides the setting for that call.  What is computed   *)
(* depends on the request only; the representation of a matrix on the        *)
(* effective sparse option.                                                  *)
EXTENDS Num
Names == {"tensorize", "sparse", "debug", "trails", "cache"}
Eff(st, over, name) == IF name \in DOMAIN over /\ over[name] >= 0 THEN over[name] ELSE st[name]
Default == [n \in Names |-> IF n = "tensorize" THEN 1 ELSE 0]
=============================================================================
