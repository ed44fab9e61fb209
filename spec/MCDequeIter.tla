----------------------------- MODULE MCDequeIter ----------------------------
(* DequeSpec's iterators next to the cursors of src/deque/iter.rs: a position  *)
(* (block and place in it) at either end of what is left.  The deque's first   *)
(* element is at place Off of its first block; N elements follow.  Touching a  *)
(* place outside the blocks of the deque is a violation.                       *)
EXTENDS DequeSpec, TLC, Json
CONSTANTS BL, MaxN, MaxJump, Kinds, Emit
VARIABLES off,         \* place of the first element
          n,           \* elements of the deque, 0 before it is built
          cur, lst,    \* [blk, pl]: next from the front; just behind the next from the back
          ok           \* every place touched holds the element it should
ivars == <<off, n, cur, lst, ok>>
\* where element i (from 0) is; i = n: the slot behind the last element
Pos(o, i) == [blk |-> (o + i) \div BL, pl |-> (o + i) % BL]
\* what is stored in a place: the element's value, or 0
Stored(p) == LET i == p.blk * BL + p.pl - off IN IF i < 0 \/ i >= n THEN 0 ELSE i + 1
MInit == DInit /\ off = 0 /\ n = 0 /\ cur = Pos(0, 0) /\ lst = Pos(0, 0) /\ ok = TRUE
\* a deque of N elements whose first is at place o, and an iterator of kind k over it
Build(o, m, k) ==
    /\ last.op = "init"
    /\ off' = o /\ n' = m /\ cur' = Pos(o, 0) /\ lst' = Pos(o, m) /\ UNCHANGED <<ok, w>>
    /\ s' = (IF k = 2 THEN <<>> ELSE Up(1, m))
    /\ it' = Some([k |-> k, lo |-> 0, hi |-> IF k = 2 THEN 0 ELSE m, q |-> IF k = 2 THEN Up(1, m) ELSE <<>>])
    /\ Did("build", <<o, m, k>>, <<>>, 0)
\* the cursors' steps, as the code takes them
Fwd(p) == IF p.pl = BL - 1 THEN [blk |-> p.blk + 1, pl |-> 0] ELSE [p EXCEPT !.pl = @ + 1]
Bwd(p) == IF p.pl = 0 THEN [blk |-> p.blk - 1, pl |-> BL - 1] ELSE [p EXCEPT !.pl = @ - 1]
RECURSIVE Fwds(_, _, _), Bwds(_, _, _)
Fwds(p, q, k) == IF k = 0 \/ p = q THEN p ELSE Fwds(Fwd(p), q, k - 1)
Bwds(p, q, k) == IF k = 0 \/ p = q THEN q ELSE Bwds(p, Bwd(q), k - 1)
\* what the code hands out is what lies at its cursor
Front1 == IF cur = lst THEN None ELSE Some(Stored(cur))
Back1 == IF cur = lst THEN None ELSE Some(Stored(Bwd(lst)))
MFront == INext /\ cur' = Fwds(cur, lst, 1) /\ ok' = (ok /\ last'.r = Front1) /\ UNCHANGED <<off, n, lst>>
MBack == INextBack /\ lst' = Bwds(cur, lst, 1) /\ ok' = (ok /\ last'.r = Back1) /\ UNCHANGED <<off, n, cur>>
MNth(k) == /\ INth(k) /\ UNCHANGED <<off, n, lst>> /\ cur' = Fwds(cur, lst, k + 1)
           /\ LET p == Fwds(cur, lst, k) IN ok' = (ok /\ last'.r = IF p = lst THEN None ELSE Some(Stored(p)))
MNthBack(k) == /\ INthBack(k) /\ UNCHANGED <<off, n, cur>> /\ lst' = Bwds(cur, lst, k + 1)
               /\ LET p == Bwds(cur, lst, k) IN ok' = (ok /\ last'.r = IF p = cur THEN None ELSE Some(Stored(Bwd(p))))
Ended(A) == A /\ UNCHANGED ivars
MNext == \/ \E o \in 0..(BL - 1), m \in 0..MaxN, k \in Kinds : Build(o, m, k)
         \/ MFront \/ MBack
         \/ \E k \in 0..MaxJump : MNth(k) \/ MNthBack(k)
         \/ (it # None /\ (Ended(ICount) \/ Ended(ILast) \/ Ended(IRest) \/ Ended(IRestBack) \/ Ended(IDrop)))
         \/ (it # None /\ it[1].k # 2 /\ \E k \in 0..1 : Ended(ICompat(k)))
         \/ (it # None /\ it[1].k = 1 /\ ((INextSet(0) /\ cur' = Fwds(cur, lst, 1) /\ UNCHANGED <<off, n, lst, ok>>)
                                          \/ (INextBackSet(0) /\ lst' = Bwds(cur, lst, 1) /\ UNCHANGED <<off, n, cur, ok>>)))
MSpec == MInit /\ [][MNext]_<<dvars, ivars>>
Todo == IF it = None THEN 0 ELSE Len(Left)
Faithful == ok
Index(p) == p.blk * BL + p.pl - off
\* the cursors name the first element left and the place behind the last one, inside the deque's blocks
Cursors == /\ 0 <= Index(cur) /\ Index(cur) <= Index(lst) /\ Index(lst) <= n
           /\ (it # None => /\ Index(lst) - Index(cur) = Todo
                            /\ (it[1].k # 2 => Index(cur) = it[1].lo /\ Index(lst) = it[1].hi))
Inside == \A p \in {cur, lst} : p.blk >= 0 /\ p.pl \in 0..(BL - 1) /\ p.blk <= Pos(off, n).blk
Shape == <<off, n, Index(cur), Index(lst), IF it = None THEN <<>> ELSE <<it[1].k>>, B(last.op = "init")>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
