----------------------------- MODULE MCFVector ------------------------------
(* FVectorSpec next to the representation: three pointers and the allocator's  *)
(* pool pointer, inline slots in the object, blocks on the heap.  The object   *)
(* lives at some place; moving copies it bytewise and adjusts the pointers.    *)
EXTENDS FVectorSpec, TLC, Json
CONSTANTS N, MaxLen, MaxCap, Emit
VARIABLES place,          \* where the object is
          ptr,            \* <<"in", place>> or <<"heap", block>>
          pool,           \* the storage the allocator must not free
          slots,          \* contents of the storage at ptr
          freed,          \* storages given to the real allocator
          nblk, nxt
ivars == <<place, ptr, pool, slots, freed, nblk, nxt>>
Here(p) == <<"in", p>>
Fresh(m) == [i \in 1..m |-> nxt + i - 1]
MCInit == /\ FInit(N) /\ place = 1 /\ ptr = Here(1) /\ pool = Here(1) /\ slots = <<>> /\ freed = {}
          /\ nblk = 0 /\ nxt = 1
\* replacing the storage: take a block, copy, return the old one unless it is the pool
Room == IF cap' # cap
        THEN /\ nblk' = nblk + 1 /\ ptr' = <<"heap", nblk + 1>>
             /\ freed' = IF ptr = pool THEN freed ELSE freed \cup {ptr}
        ELSE UNCHANGED <<nblk, ptr, freed>>
Body(q) == slots' = q /\ Room /\ UNCHANGED <<place, pool>>
MPush == Len(s) < MaxLen /\ Vec(Push(nxt)) /\ Body(Append(slots, nxt)) /\ nxt' = nxt + 1
MPop == Vec(Pop) /\ Body(IF slots = <<>> THEN slots ELSE SubSeq(slots, 1, Len(slots) - 1)) /\ UNCHANGED nxt
MInsert(i) == /\ Len(s) < MaxLen /\ Vec(Insert(i, nxt)) /\ nxt' = nxt + 1
              /\ IF i > Len(slots) THEN Body(slots) ELSE Body(InsertAtIdx(slots, i, nxt))
MRemove(i) == Vec(Remove(i)) /\ UNCHANGED nxt /\ Body(IF i >= Len(slots) THEN slots ELSE RemoveAtIdx(slots, i))
MAppend(m) == Len(s) + m <= MaxLen /\ Vec(AppendAll(Fresh(m))) /\ Body(slots \o Fresh(m)) /\ nxt' = nxt + m
MAssign(m) == Vec(Assign(Fresh(m))) /\ Body(Fresh(m)) /\ nxt' = nxt + m
MReserve(m) == cap + m <= MaxCap /\ Vec(Reserve(m)) /\ Body(slots) /\ UNCHANGED nxt
MClear == /\ FClear /\ slots' = <<>> /\ ptr' = Here(place) /\ UNCHANGED <<place, pool, nblk, nxt>>
          /\ freed' = IF ptr = pool THEN freed ELSE freed \cup {ptr}
MMove == /\ Move("move") /\ place' = 3 - place /\ UNCHANGED <<slots, freed, nblk, nxt>>
         /\ pool' = Here(place')
         /\ ptr' = IF over THEN ptr ELSE Here(place')
MNext == \/ (cap < MaxCap \/ Len(s) < cap) /\ (MPush \/ \E i \in 0..(Len(s) + 1) : MInsert(i))
         \/ MPop \/ MClear \/ MMove
         \/ \E i \in 0..Len(s) : MRemove(i)
         \/ \E m \in 0..3 : MAppend(m)
         \/ \E m \in 0..MaxLen : MAssign(m)
         \/ \E m \in 0..2 : MReserve(m)
MSpec == MCInit /\ [][MNext]_<<fvars, ivars>>

Refines == slots = s /\ Len(slots) <= cap
OverIsElsewhere == over = (ptr # Here(place))
PoolIsMine == pool = Here(place)
\* inline storage is never returned, no block twice, the storage in use not at all
Freed == /\ \A x \in freed : x[1] = "heap"
         /\ ptr \notin freed
         /\ Cardinality(freed) = nblk - (IF over THEN 1 ELSE 0)
Shape == <<Len(s), cap, B(over), place>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
