----------------------------- MODULE TraceBase ------------------------------
(* Recorded executions of the real code.  The file named by TRACE_FILE holds   *)
(* one JSON object per line: [tid, kind, cfg, ev], ev the events in order.     *)
(* A trace specification keeps (tid, l): which execution, next event.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Evs == Traces[tid].ev
Cfg == Traces[tid].cfg
TraceStart == /\ tid \in 1..Len(Traces)
              /\ l = 1
More == l <= Len(Evs)
E == Evs[l]                         \* the event about to be explained
Is(op) == E.op = op
Adv == /\ l' = l + 1
       /\ UNCHANGED tid
Started == l > 1
O == Evs[l - 1]                     \* the event just explained: its observations are judged
Has(f) == f \in DOMAIN O
Prev == Evs[l - 2]
(* An execution that is completely explained stutters; one that cannot be      *)
(* explained any further deadlocks, and TLC reports it.                        *)
Done == l > Len(Evs)
=============================================================================
