------------------------------ MODULE ListSpec ------------------------------
(* A doubly linked list with N nodes of its own (N = 0: an ordinary list).     *)
EXTENDS SeqOps
VARIABLES
    s,       \* contents, front to back
    ow,      \* parallel to s: 1 when the element lives in one of the list's own nodes, 0 in an allocated one
    nown,    \* N
    last     \* operation, arguments, result, panic, nodes asked of / given back to the (overflow) allocator
lvars == <<s, ow, nown, last>>

Did(op, a, r, p, na, nf) == last' = [op |-> op, a |-> a, r |-> r, p |-> p, na |-> na, nf |-> nf]
InUse(o) == Cardinality({i \in 1..Len(o) : o[i] = 1})
Over(o) == Len(o) - InUse(o)
Kind(o) == IF InUse(o) < nown THEN 1 ELSE 0     \* where the next node comes from
Head1(q) == IF q = <<>> THEN None ELSE Some(q[1])
Last1(q) == IF q = <<>> THEN None ELSE Some(q[Len(q)])
Front(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
Rest(q) == IF q = <<>> THEN q ELSE Tail(q)

LInit(n) == /\ s = <<>> /\ ow = <<>> /\ nown = n
            /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0, na |-> 0, nf |-> 0]
K == UNCHANGED nown
New(op) == s' = <<>> /\ ow' = <<>> /\ K /\ Did(op, <<>>, <<>>, 0, 0, Over(ow))
Clear == New("clear")
PushBack(x) == /\ s' = Append(s, x) /\ ow' = Append(ow, Kind(ow)) /\ K
               /\ Did("pushb", <<x>>, <<>>, 0, 1 - Kind(ow), 0)
PushFront(x) == /\ s' = <<x>> \o s /\ ow' = <<Kind(ow)>> \o ow /\ K
                /\ Did("pushf", <<x>>, <<>>, 0, 1 - Kind(ow), 0)
PopBack == /\ s' = Front(s) /\ ow' = Front(ow) /\ K
           /\ Did("popb", <<>>, Last1(s), 0, 0, IF s = <<>> THEN 0 ELSE 1 - ow[Len(ow)])
PopFront == /\ s' = Rest(s) /\ ow' = Rest(ow) /\ K
            /\ Did("popf", <<>>, Head1(s), 0, 0, IF s = <<>> THEN 0 ELSE 1 - ow[1])
\* where the next k nodes come from, one after another
NextKinds(o, k) == LET free == Min(k, Max(0, nown - InUse(o))) IN [i \in 1..k |-> IF i <= free THEN 1 ELSE 0]
Kinds(o, k) == o \o NextKinds(o, k)
Extend(h, q) == /\ s' = s \o q /\ ow' = Kinds(ow, Len(q)) /\ K
                /\ Did("extend", <<h>> \o q, <<>>, 0, Over(Kinds(ow, Len(q))) - Over(ow), 0)
(* --- many single operations in a row (long histories observed only at their ends) --- *)
PushBackN(v, n) == /\ s' = s \o Up(v, n) /\ ow' = Kinds(ow, n) /\ K
                   /\ Did("pushbn", <<v, n>>, <<>>, 0, Over(NextKinds(ow, n)), 0)
PushFrontN(v, n) == /\ s' = Rev(Up(v, n)) \o s /\ ow' = Rev(NextKinds(ow, n)) \o ow /\ K
                    /\ Did("pushfn", <<v, n>>, <<>>, 0, Over(NextKinds(ow, n)), 0)
PopBackN(n) == LET k == Len(s) - n IN
               /\ k >= 0 /\ s' = SubSeq(s, 1, k) /\ ow' = SubSeq(ow, 1, k) /\ K
               /\ Did("popbn", <<n>>, Rev(SubSeq(s, k + 1, Len(s))), 0, 0, Over(SubSeq(ow, k + 1, Len(s))))
PopFrontN(n) == /\ n <= Len(s) /\ s' = DropFirst(s, n) /\ ow' = DropFirst(ow, n) /\ K
                /\ Did("popfn", <<n>>, SubSeq(s, 1, n), 0, 0, Over(SubSeq(ow, 1, n)))

\* built by C++: the elements and where they live, after a history that left the own nodes in any order
Pairs(q) == [i \in 1..(Len(q) \div 2) |-> <<q[2 * i - 1], q[2 * i]>>]
Adopt(a, q) == /\ s' = [i \in 1..Len(q) |-> q[i][1]] /\ ow' = [i \in 1..Len(q) |-> q[i][2]] /\ K
               /\ Did("adopt", a, <<>>, 0, Over(ow'), Over(ow))

Write(op, a, i, x) == /\ IF i >= Len(s) \/ i < 0 THEN s' = s /\ Did(op, a, <<>>, 1, 0, 0)
                         ELSE s' = SetAtIdx(s, i, x) /\ Did(op, a, <<>>, 0, 0, 0)
                      /\ UNCHANGED <<ow, nown>>
SetFront(x) == Write("setf", <<x>>, 0, x)
SetBack(x) == Write("setb", <<x>>, Len(s) - 1, x)
Set(i, x) == Write("set", <<i, x>>, i, x)
\* the first n steps of a (0 shared, 1 mutable) iterator; the spec says nothing changes and what they yield
Iterate(k, n) == UNCHANGED <<s, ow, nown>> /\ Did("iter", <<k, n>>, SubSeq(s, 1, Min(n, Len(s))), 0, 0, 0)
Nth(k, n) == /\ UNCHANGED <<s, ow, nown>>
             /\ Did("nth", <<k, n>>, IF n < Len(s) THEN Some(s[n + 1]) ELSE None, 0, 0, 0)
LastOf(k) == UNCHANGED <<s, ow, nown>> /\ Did("last", <<k>>, Last1(s), 0, 0, 0)
\* extending a scratch list of numbers by references
ExtendRef(q) == UNCHANGED <<s, ow, nown>> /\ Did("extref", q, q, 0, 0, 0)
Fin == New("fin")

\* own nodes are used before any is asked for, and never more than N
OwnFirst == InUse(ow) <= nown /\ Len(ow) = Len(s)
AskOnlyWhenFull == [][ last'.na > 0 => InUse(ow') = nown ]_lvars
=============================================================================
