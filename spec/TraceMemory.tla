---------------------------- MODULE TraceMemory -----------------------------
(* The allocator's view, independent of the kind of container.  Events carry   *)
(* the allocator calls in order, m = << <<0|1, block, size, align, owner>> .. >>*)
(* (0 taken, 1 returned), and misuse the recording allocator saw itself (me).  *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLE out            \* blocks outstanding: block -> <<size, align, owner>>
mvars == <<out, tid, l>>
Empty == [x \in {} |-> <<>>]
Bad == [x \in {0} |-> <<0, 0, 0>>]        \* block numbers start at 1
\* one call; Bad when it is not allowed
Call(o, c) ==
    IF o = Bad THEN Bad
    ELSE IF c[1] = 0
    THEN IF c[2] \in DOMAIN o \/ c[3] <= 0 THEN Bad
         ELSE [x \in DOMAIN o \cup {c[2]} |-> IF x = c[2] THEN <<c[3], c[4], c[5]>> ELSE o[x]]
    ELSE IF c[2] \in DOMAIN o /\ o[c[2]] = <<c[3], c[4], c[5]>>
         THEN [x \in DOMAIN o \ {c[2]} |-> o[x]]
         ELSE Bad
RECURSIVE Calls(_, _, _)
Calls(o, q, i) == IF i > Len(q) THEN o ELSE Calls(Call(o, q[i]), q, i + 1)

TInit == out = Empty /\ TraceStart
Op == /\ "m" \in DOMAIN E
      /\ LET o == Calls(out, E.m, 1) IN o # Bad /\ out' = o
TNext == \/ More /\ Op /\ Adv
         \/ Done /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_mvars

Judge(P) == Started => P
MemErrs == Judge(O.me = <<>>)
Returned == Judge(O.op = "fin" => DOMAIN out = {})
=============================================================================
