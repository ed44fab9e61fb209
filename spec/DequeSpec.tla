----------------------------- MODULE DequeSpec ------------------------------
(* A deque / queue, its iterators and the deque a queue was converted into.    *)
EXTENDS SeqOps
VARIABLES
    s,        \* contents, front to back
    w,        \* None, or Some(contents of the deque obtained from a queue)
    it,       \* None, or Some([k, lo, hi, q]): k = 0 shared, 1 mutable (over s, elements lo..hi-1 remain),
              \*                                  2 consuming (the elements q remain)
    last
dvars == <<s, w, it, last>>

Did(op, a, r, p) == last' = [op |-> op, a |-> a, r |-> r, p |-> p]
Keep == UNCHANGED <<w, it>>
Head1(q) == IF q = <<>> THEN None ELSE Some(q[1])
Last1(q) == IF q = <<>> THEN None ELSE Some(q[Len(q)])
Front(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
Rest(q) == IF q = <<>> THEN q ELSE Tail(q)

DInit == /\ s = <<>> /\ w = None /\ it = None
         /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]

New(op) == s' = <<>> /\ Keep /\ Did(op, <<>>, <<>>, 0)
FromIter(h, q) == s' = q /\ Keep /\ Did("fromiter", <<h>> \o q, <<>>, 0)
\* built by C++: a[1] block pointers, the first element in block a[2] at offset a[3]
Adopt(a, q) == s' = q /\ Keep /\ Did("adopt", a, <<>>, 0)
PushBack(op, x) == s' = Append(s, x) /\ Keep /\ Did(op, <<x>>, <<>>, 0)
PushFront(x) == s' = <<x>> \o s /\ Keep /\ Did("pushf", <<x>>, <<>>, 0)
PopBack == s' = Front(s) /\ Keep /\ Did("popb", <<>>, Last1(s), 0)
PopFront(op) == s' = Rest(s) /\ Keep /\ Did(op, <<>>, Head1(s), 0)
Remove(i) == /\ IF i >= Len(s) THEN s' = s /\ Did("remove", <<i>>, None, 0)
                ELSE s' = RemoveAtIdx(s, i) /\ Did("remove", <<i>>, Some(s[i + 1]), 0)
             /\ Keep
\* writes through the mutable front / back / iterator; there is nothing to write to out of range (the caller's unwrap panics)
SetFront(x) == /\ IF s = <<>> THEN s' = s /\ Did("setf", <<x>>, <<>>, 1)
                  ELSE s' = SetAtIdx(s, 0, x) /\ Did("setf", <<x>>, <<>>, 0)
               /\ Keep
SetBack(x) == /\ IF s = <<>> THEN s' = s /\ Did("setb", <<x>>, <<>>, 1)
                 ELSE s' = SetAtIdx(s, Len(s) - 1, x) /\ Did("setb", <<x>>, <<>>, 0)
              /\ Keep
Set(i, x) == /\ IF i >= Len(s) THEN s' = s /\ Did("set", <<i, x>>, <<>>, 1)
                ELSE s' = SetAtIdx(s, i, x) /\ Did("set", <<i, x>>, <<>>, 0)
             /\ Keep

(* --- many single operations in a row (long histories observed only at their ends) --- *)
PushBackN(op, v, n) == s' = s \o Up(v, n) /\ Keep /\ Did(op, <<v, n>>, <<>>, 0)
PushFrontN(v, n) == s' = Rev(Up(v, n)) \o s /\ Keep /\ Did("pushfn", <<v, n>>, <<>>, 0)
PopBackN(n) == /\ n <= Len(s) /\ s' = SubSeq(s, 1, Len(s) - n) /\ Keep
               /\ Did("popbn", <<n>>, Rev(SubSeq(s, Len(s) - n + 1, Len(s))), 0)
PopFrontN(op, n) == n <= Len(s) /\ s' = DropFirst(s, n) /\ Keep /\ Did(op, <<n>>, SubSeq(s, 1, n), 0)
RemN(i, n) == /\ i + n <= Len(s)
              /\ s' = SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s)) /\ Keep
              /\ Did("remn", <<i, n>>, SubSeq(s, i + 1, i + n), 0)

(* --- iterators --- *)
ItNew(k) == /\ it' = Some([k |-> k, lo |-> 0, hi |-> IF k = 2 THEN 0 ELSE Len(s), q |-> IF k = 2 THEN s ELSE <<>>])
            /\ s' = IF k = 2 THEN <<>> ELSE s
            /\ UNCHANGED w /\ Did("itnew", <<k>>, <<>>, 0)
Remaining(i) == IF i.k = 2 THEN i.q ELSE SubSeq(s, i.lo + 1, i.hi)
\* what is left, from the front
Left == IF it = None THEN <<>> ELSE Remaining(it[1])
Step(back) ==
    IF Left = <<>> THEN it
    ELSE IF it[1].k = 2 THEN Some([it[1] EXCEPT !.q = IF back THEN Front(@) ELSE Tail(@)])
    ELSE IF back THEN Some([it[1] EXCEPT !.hi = @ - 1]) ELSE Some([it[1] EXCEPT !.lo = @ + 1])
INext == it # None /\ it' = Step(FALSE) /\ UNCHANGED <<s, w>> /\ Did("inext", <<>>, Head1(Left), 0)
INextBack == it # None /\ it' = Step(TRUE) /\ UNCHANGED <<s, w>> /\ Did("inback", <<>>, Last1(Left), 0)
\* a jump over n elements, and the consuming counts
Jumped(back, n) == LET q == Left  m == Min(n + 1, Len(q)) IN
    IF it[1].k = 2 THEN Some([it[1] EXCEPT !.q = IF back THEN SubSeq(q, 1, Len(q) - m) ELSE DropFirst(q, m)])
    ELSE IF back THEN Some([it[1] EXCEPT !.hi = @ - m]) ELSE Some([it[1] EXCEPT !.lo = @ + m])
INth(n) == /\ it # None /\ it' = Jumped(FALSE, n) /\ UNCHANGED <<s, w>>
           /\ Did("inth", <<n>>, IF n < Len(Left) THEN Some(Left[n + 1]) ELSE None, 0)
INthBack(n) == /\ it # None /\ it' = Jumped(TRUE, n) /\ UNCHANGED <<s, w>>
               /\ Did("inthb", <<n>>, IF n < Len(Left) THEN Some(Left[Len(Left) - n]) ELSE None, 0)
ICount == it' = None /\ UNCHANGED <<s, w>> /\ Did("icount", <<>>, <<Len(Left)>>, 0)
ILast == it' = None /\ UNCHANGED <<s, w>> /\ Did("ilast", <<>>, Last1(Left), 0)
\* a mutable iterator's reference is written through
INextSet(x) == /\ it # None /\ it[1].k = 1 /\ it' = Step(FALSE) /\ UNCHANGED w
               /\ s' = IF Left = <<>> THEN s ELSE SetAtIdx(s, it[1].lo, x)
               /\ Did("inextset", <<x>>, Head1(Left), 0)
INextBackSet(x) == /\ it # None /\ it[1].k = 1 /\ it' = Step(TRUE) /\ UNCHANGED w
                   /\ s' = IF Left = <<>> THEN s ELSE SetAtIdx(s, it[1].hi - 1, x)
                   /\ Did("inbackset", <<x>>, Last1(Left), 0)
\* to the C++ pair and back: a shared or mutable iterator over the same remaining elements
ICompat(k) == /\ it # None /\ UNCHANGED <<s, w>> /\ Did("icompat", <<k>>, <<>>, 0)
              /\ it' = IF it[1].k = 1 /\ k # 0 THEN Some([it[1] EXCEPT !.k = 0]) ELSE it
IRest == it' = None /\ UNCHANGED <<s, w>> /\ Did("irest", <<>>, Left, 0)
IRestBack == it' = None /\ UNCHANGED <<s, w>> /\ Did("irestb", <<>>, Rev(Left), 0)
IDrop == it' = None /\ UNCHANGED <<s, w>> /\ Did("idrop", <<>>, <<>>, 0)

(* --- queue to deque --- *)
Inner == w' = Some(s) /\ s' = <<>> /\ UNCHANGED it /\ Did("inner", <<>>, <<>>, 0)
WPopF == w # None /\ w' = Some(Rest(w[1])) /\ UNCHANGED <<s, it>> /\ Did("wpopf", <<>>, Head1(w[1]), 0)
WPopB == w # None /\ w' = Some(Front(w[1])) /\ UNCHANGED <<s, it>> /\ Did("wpopb", <<>>, Last1(w[1]), 0)
DropW == w' = None /\ UNCHANGED <<s, it>> /\ Did("dropw", <<>>, <<>>, 0)
Fin == s' = <<>> /\ w' = None /\ it' = None /\ Did("fin", <<>>, <<>>, 0)
=============================================================================
