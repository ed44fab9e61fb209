------------------------------ MODULE MCDeque -------------------------------
(* DequeSpec next to the block structure the code keeps: a pointer array of P  *)
(* slots, equally sized blocks, begin and end positions.  The steps follow     *)
(* src/deque/mod.rs; the structure must always refine the sequence.            *)
EXTENDS DequeSpec, TLC, Json
CONSTANTS BL, InitP, MaxP, Emit, Removes
VARIABLES P, arr, mem, b, e, nid, nxt
\* arr: slot -> block id or 0;  mem: block id -> contents of the live blocks;  b, e: [slot, off]
ivars == <<P, arr, mem, b, e, nid, nxt>>
Junk == 0
NoBlock == 0
Blank == [i \in 0..(BL - 1) |-> Junk]

MCInit == /\ DInit /\ P = InitP /\ nid = 2 /\ nxt = 1
          /\ arr = [i \in 0..(InitP - 1) |-> IF i = (InitP - 1) \div 2 THEN 1 ELSE NoBlock]
          /\ mem = [x \in {1} |-> Blank]
          /\ b = [slot |-> (InitP - 1) \div 2, off |-> 0] /\ e = b

\* making room in the pointer array, one more slot wanted at the front or the back: new [P, arr, start]
Used == e.slot - b.slot + 1
FreeFront == b.slot
FreeBack == P - b.slot - Used
Moved(a, start) == [i \in DOMAIN a |-> IF i >= start /\ i < start + Used THEN arr[b.slot + i - start] ELSE a[i]]
Room(front) ==
    IF ~front /\ 1 <= FreeFront
    THEN [P |-> P, start |-> FreeFront - Max(1, (FreeFront + 1) \div 2)]
    ELSE IF front /\ 1 <= FreeBack
    THEN [P |-> P, start |-> b.slot + Max(1, FreeBack \div 2)]
    ELSE [P |-> P + Max(P, 1) + 2, start |-> FreeFront + B(front)]
Blocked(front) == IF front THEN b.off = 0 /\ b.slot = 0 ELSE e.off = BL - 1 /\ e.slot = P - 1
\* the array and positions after making room if needed
Prep(front) ==
    IF ~Blocked(front) THEN [P |-> P, arr |-> arr, d |-> 0]
    ELSE LET r == Room(front)
             base == [i \in 0..(r.P - 1) |-> IF r.P = P THEN arr[i] ELSE NoBlock]
         IN [P |-> r.P, arr |-> Moved(base, r.start), d |-> r.start - b.slot]
At(pos, pr) == [slot |-> pos.slot + pr.d, off |-> pos.off]

MPushBack ==
    LET pr == Prep(FALSE) IN
    /\ PushBack("pushb", nxt) /\ nxt' = nxt + 1
    /\ P' = pr.P /\ b' = At(b, pr)
    /\ LET m1 == [mem EXCEPT ![arr[e.slot]][e.off] = nxt] IN
       IF e.off # BL - 1
       THEN mem' = m1 /\ arr' = pr.arr /\ e' = [slot |-> e.slot + pr.d, off |-> e.off + 1] /\ UNCHANGED nid
       ELSE /\ mem' = [x \in DOMAIN m1 \cup {nid} |-> IF x = nid THEN Blank ELSE m1[x]]
            /\ arr' = [pr.arr EXCEPT ![e.slot + pr.d + 1] = nid]
            /\ e' = [slot |-> e.slot + pr.d + 1, off |-> 0] /\ nid' = nid + 1
MPushFront ==
    LET pr == Prep(TRUE) IN
    /\ PushFront(nxt) /\ nxt' = nxt + 1
    /\ P' = pr.P /\ e' = At(e, pr)
    /\ IF b.off # 0
       THEN /\ mem' = [mem EXCEPT ![arr[b.slot]][b.off - 1] = nxt] /\ arr' = pr.arr
            /\ b' = [slot |-> b.slot + pr.d, off |-> b.off - 1] /\ UNCHANGED nid
       ELSE /\ mem' = [x \in DOMAIN mem \cup {nid} |-> IF x = nid THEN [Blank EXCEPT ![BL - 1] = nxt] ELSE mem[x]]
            /\ arr' = [pr.arr EXCEPT ![b.slot + pr.d - 1] = nid]
            /\ b' = [slot |-> b.slot + pr.d - 1, off |-> BL - 1] /\ nid' = nid + 1
DropBlock(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]
\* popping moves the position back over the element, giving up a block that is no longer needed
AfterPopBack(m) ==
    IF e.off # 0 THEN [e |-> [slot |-> e.slot, off |-> e.off - 1], mem |-> [m EXCEPT ![arr[e.slot]][e.off - 1] = Junk]]
    ELSE [e |-> [slot |-> e.slot - 1, off |-> BL - 1],
          mem |-> [DropBlock(m, arr[e.slot]) EXCEPT ![arr[e.slot - 1]][BL - 1] = Junk]]
AfterPopFront(m) ==
    IF b.off # BL - 1 THEN [b |-> [slot |-> b.slot, off |-> b.off + 1], mem |-> [m EXCEPT ![arr[b.slot]][b.off] = Junk]]
    ELSE [b |-> [slot |-> b.slot + 1, off |-> 0], mem |-> DropBlock(m, arr[b.slot])]
MPopBack == /\ PopBack /\ UNCHANGED <<P, arr, b, nid, nxt>>
            /\ IF s = <<>> THEN UNCHANGED <<e, mem>> ELSE LET r == AfterPopBack(mem) IN e' = r.e /\ mem' = r.mem
MPopFront == /\ PopFront("popf") /\ UNCHANGED <<P, arr, e, nid, nxt>>
             /\ IF s = <<>> THEN UNCHANGED <<b, mem>> ELSE LET r == AfterPopFront(mem) IN b' = r.b /\ mem' = r.mem
\* places of the elements, from begin
Place(i) == LET k == b.off + i IN [slot |-> b.slot + k \div BL, off |-> k % BL]
Rd(m, i) == m[arr[Place(i).slot]][Place(i).off]
RECURSIVE Wr(_, _, _)
\* write the values of function f over the indices in [lo, hi)
Wr(m, f, I) == IF I = {} THEN m ELSE LET i == CHOOSE i \in I : TRUE IN
               Wr([m EXCEPT ![arr[Place(i).slot]][Place(i).off] = f[i]], f, I \ {i})
\* removal: rotate towards the nearer end, then pop there
MRemove(i) ==
    /\ Remove(i) /\ UNCHANGED <<P, arr, nid, nxt>>
    /\ LET n == Len(s) IN
       IF i >= n THEN UNCHANGED <<b, e, mem>>
       ELSE IF i < n \div 2
       THEN LET f == [k \in 0..i |-> IF k = 0 THEN Rd(mem, i) ELSE Rd(mem, k - 1)]
                r == AfterPopFront(Wr(mem, f, 0..i)) IN b' = r.b /\ mem' = r.mem /\ UNCHANGED e
       ELSE LET f == [k \in i..(n - 1) |-> IF k = n - 1 THEN Rd(mem, i) ELSE Rd(mem, k + 1)]
                r == AfterPopBack(Wr(mem, f, i..(n - 1))) IN e' = r.e /\ mem' = r.mem /\ UNCHANGED b
Idx == LET n == Len(s) IN IF Removes THEN {0, 1, n \div 2 - 1, n \div 2, n - 2, n - 1, n} ELSE {}
MNext == \/ MPopBack \/ MPopFront
         \/ (Prep(FALSE).P <= MaxP /\ MPushBack)
         \/ (Prep(TRUE).P <= MaxP /\ MPushFront)
         \/ \E i \in Idx : i >= 0 /\ MRemove(i)
MSpec == MCInit /\ [][MNext]_<<dvars, ivars>>
(* Handed over by C++: any pointer array of 8..MaxP slots, the elements anywhere in it, rubbish in the unused slots. *)
AInit == \E p \in 8..MaxP, k \in 0..3, bs \in 0..(MaxP - 1), bo \in 0..(BL - 1), eo \in 0..(BL - 1) :
           LET n == k * BL + eo - bo IN
           /\ bs + k < p /\ n >= 0
           /\ P = p /\ b = [slot |-> bs, off |-> bo] /\ e = [slot |-> bs + k, off |-> eo]
           /\ arr = [i \in 0..(p - 1) |-> IF i >= bs /\ i <= bs + k THEN i - bs + 1 ELSE -1]
           /\ nid = k + 2 /\ nxt = n + 1 /\ s = Up(1, n)
           /\ mem = [x \in 1..(k + 1) |-> [o \in 0..(BL - 1) |->
                       LET i == (x - 1) * BL + o - bo IN IF i >= 0 /\ i < n THEN i + 1 ELSE Junk]]
           /\ w = None /\ it = None /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
ASpec == AInit /\ [][MNext]_<<dvars, ivars>>

(* Refinement and the image rules *)
InArray == /\ 0 <= b.slot /\ b.slot <= e.slot /\ e.slot < P /\ DOMAIN arr = 0..(P - 1)
           /\ b.off \in 0..(BL - 1) /\ e.off \in 0..(BL - 1)
LiveBlocks == {arr[i] : i \in b.slot..e.slot}
BlocksLive == LiveBlocks = DOMAIN mem /\ Cardinality(LiveBlocks) = e.slot - b.slot + 1
Count == (e.slot - b.slot) * BL + e.off - b.off = Len(s)
Refines == \A i \in 0..(Len(s) - 1) : Rd(mem, i) = s[i + 1]
\* nothing but the elements is stored
NoStray == \A x \in b.slot..e.slot, o \in 0..(BL - 1) :
             (x * BL + o < b.slot * BL + b.off \/ x * BL + o >= e.slot * BL + e.off) => mem[arr[x]][o] = Junk
Shape == <<P, b.slot, b.off, e.slot, e.off>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
