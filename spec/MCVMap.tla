------------------------------- MODULE MCVMap -------------------------------
(* VMapSpec next to a vector of pairs searched by bisection.                   *)
EXTENDS VMapSpec, TLC, Json
CONSTANTS U, Ord, Emit
VARIABLES b, nxt
Keys == 0..(U - 1)
MCInit == VInit(Ord) /\ b = <<>> /\ nxt = 1
RECURSIVE Bisect(_, _, _)
\* least index i in lo..hi (0-based) such that b[i] is not before k
Bisect(lo, hi, k) == IF lo >= hi THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN
                          IF Before(b[mid + 1][1], k) THEN Bisect(mid + 1, hi, k) ELSE Bisect(lo, mid, k)
At(k) == Bisect(0, Len(b), k)
Hit(k) == At(k) < Len(b) /\ b[At(k) + 1][1] = k
Store(k, v) == b' = IF Hit(k) THEN SetAtIdx(b, At(k), <<k, v>>) ELSE InsertAtIdx(b, At(k), <<k, v>>)
Out(k) == b' = IF Hit(k) THEN RemoveAtIdx(b, At(k)) ELSE b
S == UNCHANGED b
MNext == /\ nxt' = nxt + 2
         /\ \/ \E k \in Keys :
                 \/ Insert(k, nxt) /\ Store(k, nxt)
                 \/ GetSet(k, nxt) /\ (IF Hit(k) THEN Store(k, nxt) ELSE S)
                 \/ Get("get", k) /\ S
                 \/ Get("getmut", k) /\ S
                 \/ Contains(k) /\ S
                 \/ Remove(k) /\ Out(k)
                 \/ RemoveEntry(k) /\ Out(k)
                 \/ EntQ(k) /\ S
                 \/ EntOcc(k, nxt) /\ (IF Hit(k) THEN Store(k, nxt) ELSE S)
                 \/ EntVIn(k, nxt) /\ (IF Hit(k) THEN S ELSE Store(k, nxt))
                 \/ EntVInSet(k, nxt, nxt + 1) /\ (IF Hit(k) THEN S ELSE Store(k, nxt + 1))
            \/ Clear /\ b' = <<>>
MSpec == MCInit /\ [][MNext]_<<vvars, b, nxt>>
Refine == b = Sorted
Shape == [i \in 1..Len(b) |-> b[i][1]]
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
