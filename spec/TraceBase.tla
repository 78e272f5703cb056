----------------------------- MODULE TraceBase -----------------------------
(* Skeleton shared by the trace specifications.  Data.traces is a sequence   *)
(* of recorded sessions of the real library; a session is a sequence of      *)
(* events.  tid chooses the session, l is the next event, ws the abstract    *)
(* state the specification carries along the session.  A session in which    *)
(* some event is no step of the specification cannot reach its end: TLC      *)
(* reports the deadlock.                                                     *)
EXTENDS Num, Json, IOUtils
VARIABLES tid, l, ws
tvars == <<tid, l, ws>>
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace == Data.traces[tid]
Ev == Trace[l]
More == l <= Len(Trace)
TInit(w0) == tid \in 1 .. Len(Data.traces) /\ l = 1 /\ ws = w0
Advance == l' = l + 1 /\ tid' = tid
Done == l > Len(Trace) /\ UNCHANGED tvars
Is(op) == More /\ Ev.op = op
\* a predicate of the current event, evaluated as an expression (TLC would
\* otherwise unfold a universal quantifier conjunct by conjunct)
Chk(p) == p = TRUE
Has(f) == f \in DOMAIN Ev
=============================================================================
