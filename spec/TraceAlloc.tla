----------------------------- MODULE TraceAlloc -----------------------------
(* The default allocator, seen from the allocator of the process beneath it:   *)
(* a request is passed on with at least its size and alignment and answered    *)
(* with an aligned block, and everything goes back as it was taken.  Whole     *)
(* containers over the default allocator leave nothing behind.                 *)
EXTENDS TraceMemory
ElemSize == [t \in {1, 2, 4, 8, 16} |-> IF t = 1 THEN 1 ELSE IF t = 2 THEN 6 ELSE IF t = 4 THEN 20 ELSE 16]
Asks == {"raw", "word", "typed"}
Size(e) == IF e.op = "typed" THEN e.a[1] * ElemSize[e.a[2]] ELSE e.a[1]
Align(e) == IF e.op = "word" THEN 8 ELSE e.a[2]
Calm == Judge(O.p = 0)
Passed == Judge(O.op \in Asks => /\ O.r = <<1>> /\ Len(O.m) = 1
                                 /\ O.m[1][1] = 0 /\ O.m[1][3] >= Size(O) /\ O.m[1][4] >= Align(O))
Given == Judge(O.op = "ret" => Len(O.m) = 1 /\ O.m[1][1] = 1)
\* a container that is gone has returned everything
Net(e) == {<<e.m[i][2], i>> : i \in {j \in 1..Len(e.m) : e.m[j][1] = 0}}
Gone == Judge(O.op \notin Asks \cup {"ret", "fin"} =>
              \A x \in Net(O) : x[1] \notin DOMAIN out)
=============================================================================
