------------------------------ MODULE MCVector ------------------------------
(* Small-scope exhaustive model: VectorSpec next to the code's own slot-level  *)
(* representation (storage of cap slots, elements shifted by block copies).    *)
EXTENDS VectorSpec, TLC, Json
CONSTANTS MaxLen, MaxCap, Emit
VARIABLES buf, n, nxt            \* slots, number of live slots, next fresh value
ivars == <<buf, n, nxt>>
Junk == 0
F == nxt

\* slot-level steps, as the code performs them
Realloc(b, c) == [i \in 0..(c - 1) |-> IF i \in DOMAIN b /\ i < n THEN b[i] ELSE Junk]
Grown(b, c) == IF n = c THEN Realloc(b, Grow(c)) ELSE b
ShiftR(b, i, x) == [k \in DOMAIN b |-> IF k < i THEN b[k] ELSE IF k = i THEN x
                                        ELSE IF k <= n THEN b[k - 1] ELSE b[k]]
ShiftL(b, i) == [k \in DOMAIN b |-> IF k < i THEN b[k] ELSE IF k < n - 1 THEN b[k + 1] ELSE Junk]
Write(b, i, q) == [k \in DOMAIN b |-> IF k >= i /\ k < i + Len(q) THEN q[k - i + 1] ELSE b[k]]
Fit(b, c, m) == IF m > c THEN Realloc(b, m) ELSE b
Blank(c) == [i \in 0..(c - 1) |-> Junk]
Fresh(m) == [i \in 1..m |-> nxt + i - 1]

MCInit == VInit /\ buf = <<>> /\ n = 0 /\ nxt = 1
MPush == Len(s) < MaxLen /\ Push(F) /\ buf' = Write(Grown(buf, cap), n, <<F>>) /\ n' = n + 1 /\ nxt' = nxt + 1
MPop == Pop /\ n' = (IF n = 0 THEN 0 ELSE n - 1)
            /\ buf' = (IF n = 0 THEN buf ELSE [buf EXCEPT ![n - 1] = Junk]) /\ UNCHANGED nxt
MInsert(i) == /\ Len(s) < MaxLen /\ Insert(i, F) /\ nxt' = nxt + 1
              /\ IF i > n THEN UNCHANGED <<buf, n>>
                 ELSE buf' = ShiftR(Grown(buf, cap), i, F) /\ n' = n + 1
MRemove(i) == /\ Remove(i) /\ UNCHANGED nxt
              /\ IF i >= n THEN UNCHANGED <<buf, n>> ELSE buf' = ShiftL(buf, i) /\ n' = n - 1
MSet(i) == i < n /\ Set(i, F) /\ buf' = Write(buf, i, <<F>>) /\ nxt' = nxt + 1 /\ UNCHANGED n
MAppend(m) == /\ Len(s) + m <= MaxLen /\ AppendAll(Fresh(m)) /\ nxt' = nxt + m
              /\ buf' = Write(Fit(buf, cap, n + m), n, Fresh(m)) /\ n' = n + m
\* assign: grow to the exact size if needed, dispose of the old elements, then write the new ones
MAssign(m) == /\ Assign(Fresh(m)) /\ nxt' = nxt + m /\ n' = m
              /\ buf' = LET b == Fit(buf, cap, m) IN
                        Write([k \in DOMAIN b |-> Junk], 0, Fresh(m))
MClear == Clear /\ buf' = <<>> /\ n' = 0 /\ UNCHANGED nxt
MReserve(m) == cap + m <= MaxCap /\ Reserve(m) /\ UNCHANGED <<n, nxt>>
               /\ buf' = IF m = 0 THEN buf ELSE Realloc(buf, cap + m)
MWithCap(m) == WithCap(m) /\ buf' = Blank(m) /\ n' = 0 /\ UNCHANGED nxt
MClone == CloneV /\ UNCHANGED ivars
MSwapW == /\ SwapW /\ w # None /\ UNCHANGED nxt
          /\ n' = Len(w[1].s)
          /\ buf' = Write(Blank(w[1].cap), 0, w[1].s)
MInto == IntoIter /\ buf' = <<>> /\ n' = 0 /\ UNCHANGED nxt
MNext == \/ (cap < MaxCap \/ n < cap) /\ (MPush \/ \E i \in 0..(n + 1) : MInsert(i))
         \/ MPop \/ MClear \/ MClone \/ MSwapW
         \/ \E i \in 0..n : MRemove(i)
         \/ \E i \in 0..n : MSet(i)
         \/ \E m \in 0..3 : MAppend(m)
         \/ \E m \in {0, 1, 2, 4, 5} : m <= MaxLen /\ MAssign(m)
         \/ \E m \in 0..2 : MReserve(m)
         \/ \E m \in {0, 3} : MWithCap(m)
         \/ (w # None /\ DropW /\ UNCHANGED ivars)
MSpec == MCInit /\ [][MNext]_<<vvars, ivars>>
(* Handed over by C++: any length, any capacity. *)
AInit == /\ cap \in 0..MaxCap /\ n \in 0..MaxLen /\ n <= cap /\ s = Up(1, n) /\ nxt = n + 1
         /\ buf = [i \in 0..(cap - 1) |-> IF i < n THEN i + 1 ELSE Junk]
         /\ w = None /\ it = None /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
ASpec == AInit /\ [][MNext]_<<vvars, ivars>>

(* The slots refine the sequence: live slots are the contents in order, the rest hold nothing. *)
Refines == /\ n = Len(s) /\ DOMAIN buf = 0..(cap - 1)
           /\ \A i \in 0..(n - 1) : buf[i] = s[i + 1]
           /\ \A i \in n..(cap - 1) : buf[i] = Junk
Owned == NoDup(s)                  \* every element is in one place
\* an unrelated vector is not disturbed: the clone only changes when it is itself replaced
CloneIndependent == [][ (w # None /\ w' # None /\ last'.op \notin {"clone", "swapw"}) => w' = w ]_vvars
Shape == <<Len(s), cap, IF w = None THEN <<>> ELSE <<Len(w[1].s), w[1].cap>>, IF it = None THEN <<>> ELSE <<Len(it[1].s), it[1].cap>>>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
