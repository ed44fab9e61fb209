------------------------------- MODULE MCPool -------------------------------
(* PoolSpec next to the free list threaded through freed blocks and the        *)
(* pointer to the part of the region never handed out.                         *)
EXTENDS PoolSpec, TLC, Json
CONSTANTS Size, Align, Off, Length, Ov, MaxOut, Emit
VARIABLES free, next, fresh
MCInit == /\ PInit([size |-> Size, align |-> Align, off |-> Off, len |-> Length, ov |-> Ov])
          /\ free = <<>> /\ next = Slack(geo) /\ fresh = 1
End == Slack(geo) + Fit(geo) * Size
Alloc == /\ Len(out) < MaxOut
         /\ IF free # <<>> THEN AllocPool(free[1]) /\ free' = Tail(free) /\ UNCHANGED <<next, fresh>>
            ELSE IF next # End THEN AllocPool(next) /\ next' = next + Size /\ UNCHANGED <<free, fresh>>
            ELSE IF Ov = 1 THEN AllocOver(Length + fresh * 1000) /\ fresh' = fresh + 1 /\ UNCHANGED <<free, next>>
            ELSE AllocNone /\ UNCHANGED <<free, next, fresh>>
\* where a block goes is decided by its address
Give(i) == LET x == out[i + 1][2] IN
           /\ Free(i)
           /\ free' = IF 0 <= x /\ x < End THEN <<x>> \o free ELSE free
           /\ UNCHANGED <<next, fresh>>
MNext == Alloc \/ \E i \in 0..(Len(out) - 1) : Give(i)
MSpec == MCInit /\ [][MNext]_<<pvars, free, next, fresh>>
(* Handed over by C++: the first k blocks have been handed out before, any of them are in use, the others are on the *)
(* free list in any order. *)
Orders(S) == {q \in [1..Cardinality(S) -> S] : Cardinality(Range(q)) = Cardinality(S)}
AInit == \E g \in {[size |-> Size, align |-> Align, off |-> Off, len |-> Length, ov |-> Ov]} :
           \E k \in 0..Fit(g) :
             LET blk(i) == Slack(g) + i * Size IN
             \E used \in SUBSET (0..(k - 1)) :
               /\ geo = g /\ calls = <<>> /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>] /\ fresh = 1
               /\ next = blk(k)
               /\ \E q \in Orders(used) : out = [i \in 1..Len(q) |-> <<1, blk(q[i])>>]
               /\ \E q \in Orders((0..(k - 1)) \ used) : free = [i \in 1..Len(q) |-> blk(q[i])]
ASpec == AInit /\ [][MNext]_<<pvars, free, next, fresh>>
Blocks == {out[i][2] : i \in Mine(out)}
Conserved == /\ NoDup(free) /\ Range(free) \cap Blocks = {}
             /\ Cardinality(Range(free) \cup Blocks) * Size = next - Slack(geo)
             /\ (free # <<>> \/ next # End) = CanAllocate
Shape == <<[i \in 1..Len(out) |-> IF out[i][1] = 1 THEN out[i][2] ELSE -1], free, next>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
