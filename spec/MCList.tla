------------------------------- MODULE MCList -------------------------------
(* ListSpec next to the linked nodes and the node pool (free list, bump        *)
(* cursor, overflow) that the code keeps.                                      *)
EXTENDS ListSpec, TLC, Json
CONSTANTS N, MaxLen, Emit
VARIABLES nx, pv, vl, cnt, free, bump, nid, nxt
\* node 0 is the sentinel, 1..N the own nodes, above N allocated ones
ivars == <<nx, pv, vl, cnt, free, bump, nid, nxt>>

MCInit == /\ LInit(N) /\ nx = [i \in {0} |-> 0] /\ pv = nx /\ vl = [i \in {} |-> 0]
          /\ cnt = 0 /\ free = <<>> /\ bump = 1 /\ nid = N + 1 /\ nxt = 1
\* a node from the pool, else from the overflow allocator
Got == IF free # <<>> THEN free[1] ELSE IF bump <= N THEN bump ELSE nid
Take == /\ free' = (IF free # <<>> THEN Tail(free) ELSE free)
        /\ bump' = (IF free = <<>> /\ bump <= N THEN bump + 1 ELSE bump)
        /\ nid' = (IF Got = nid THEN nid + 1 ELSE nid)
Ext(f, x, v) == [i \in DOMAIN f \cup {x} |-> IF i = x THEN v ELSE f[i]]
\* link node x before node y
LinkBefore(x, y, v) ==
    LET p == pv[y]
        n1 == Ext(nx, x, y)
        p1 == Ext(pv, x, p)
    IN /\ nx' = [n1 EXCEPT ![p] = x] /\ pv' = [p1 EXCEPT ![y] = x] /\ vl' = Ext(vl, x, v)
Without(f, x) == [i \in DOMAIN f \ {x} |-> f[i]]
Unlink(x) == LET n == nx[x]
                 p == pv[x]
             IN /\ pv' = Without([pv EXCEPT ![n] = p], x)
                /\ nx' = Without([nx EXCEPT ![p] = n], x)
                /\ vl' = Without(vl, x)
GiveBack(x) == free' = (IF x <= N THEN <<x>> \o free ELSE free) /\ UNCHANGED <<bump, nid>>
MPushB == /\ Len(s) < MaxLen /\ PushBack(nxt) /\ nxt' = nxt + 1 /\ cnt' = cnt + 1
          /\ Take /\ LinkBefore(Got, 0, nxt)
MPushF == /\ Len(s) < MaxLen /\ PushFront(nxt) /\ nxt' = nxt + 1 /\ cnt' = cnt + 1
          /\ Take /\ LinkBefore(Got, nx[0], nxt)
MPopB == /\ PopBack /\ UNCHANGED nxt
         /\ IF pv[0] = 0 THEN UNCHANGED <<nx, pv, vl, cnt, free, bump, nid>>
            ELSE Unlink(pv[0]) /\ GiveBack(pv[0]) /\ cnt' = cnt - 1
MPopF == /\ PopFront /\ UNCHANGED nxt
         /\ IF nx[0] = 0 THEN UNCHANGED <<nx, pv, vl, cnt, free, bump, nid>>
            ELSE Unlink(nx[0]) /\ GiveBack(nx[0]) /\ cnt' = cnt - 1
RECURSIVE Walk(_, _)
Walk(f, x) == IF f[x] = 0 THEN <<>> ELSE <<f[x]>> \o Walk(f, f[x])
Pooled(q) == SelectSeq(q, LAMBDA x : x <= N)
\* clear walks the nodes from the front, each going back to where it came from
MClear == /\ Clear /\ nx' = [i \in {0} |-> 0] /\ pv' = nx' /\ vl' = [i \in {} |-> 0] /\ cnt' = 0
          /\ free' = Rev(Pooled(Walk(nx, 0))) \o free /\ UNCHANGED <<bump, nid, nxt>>
MSet(i) == /\ i < Len(s) /\ Set(i, nxt) /\ nxt' = nxt + 1
           /\ vl' = [vl EXCEPT ![Walk(nx, 0)[i + 1]] = nxt] /\ UNCHANGED <<nx, pv, cnt, free, bump, nid>>
MNext == MPushB \/ MPushF \/ MPopB \/ MPopF \/ MClear \/ \E i \in {0, Len(s) - 1} : i >= 0 /\ MSet(i)
MSpec == MCInit /\ [][MNext]_<<lvars, ivars>>
(* Handed over by C++: the first `used` own nodes have been handed out before; any of them hold the elements, in any  *)
(* order, the others are on the free list in any order; elements elsewhere only after all own nodes were handed out. *)
Orders(S) == UNION {{q \in [1..k -> S] : Cardinality(Range(q)) = k} : k \in 0..Cardinality(S)}
AInit == \E used \in 0..N : \E q \in Orders(1..used \cup (IF used = N THEN (N + 1)..(N + 2) ELSE {})) :
           \E fr \in Orders(1..used) :
             LET n == Len(q)
                 at(i) == IF i = 0 \/ i = n + 1 THEN 0 ELSE q[i]
                 of(x) == CHOOSE i \in 0..n : at(i) = x
             IN /\ n <= MaxLen /\ Range(fr) = (1..used) \ Range(q)
                /\ nx = [x \in {0} \cup Range(q) |-> at(of(x) + 1)]
                /\ pv = [x \in {0} \cup Range(q) |-> IF x = 0 THEN at(n) ELSE at(of(x) - 1)]
                /\ vl = [x \in Range(q) |-> of(x)]
                /\ cnt = n /\ free = fr /\ bump = used + 1 /\ nid = N + 3 /\ nxt = n + 1
                /\ s = Up(1, n) /\ ow = [i \in 1..n |-> B(q[i] <= N)] /\ nown = N
                /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0, na |-> 0, nf |-> 0]
ASpec == AInit /\ [][MNext]_<<lvars, ivars>>

F == Walk(nx, 0)
Bk == Walk(pv, 0)
Ring == /\ [i \in 1..Len(F) |-> vl[F[i]]] = s /\ Bk = Rev(F) /\ cnt = Len(s)
        /\ DOMAIN nx = DOMAIN pv /\ DOMAIN nx = {0} \cup Range(F) /\ DOMAIN vl = Range(F)
\* each element lives where the specification says; a node in use is never in the free list
Where == [i \in 1..Len(F) |-> B(F[i] <= N)] = ow
PoolSound == /\ NoDup(free) /\ Range(free) \cap Range(F) = {} /\ Range(free) \subseteq 1..(bump - 1)
             /\ Range(free) \cup {F[i] : i \in {j \in 1..Len(F) : F[j] <= N}} = 1..(bump - 1)
Shape == <<[i \in 1..Len(F) |-> IF F[i] <= N THEN F[i] ELSE 0], free, bump>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
