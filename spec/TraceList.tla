------------------------------ MODULE TraceList -----------------------------
(* Conformance of recorded list and fixed-list executions with ListSpec.       *)
EXTENDS ListSpec, TraceBase
tvars == <<lvars, tid, l>>

NOf(t) == IF "nodes" \in DOMAIN Traces[t].cfg THEN Traces[t].cfg.nodes ELSE 0
TInit == TraceStart /\ LInit(NOf(tid))
a == E.a
Act ==
    \/ Is("new") /\ New("new")
    \/ Is("newin") /\ New("newin")
    \/ Is("drop") /\ New("drop")
    \/ Is("fin") /\ Fin
    \/ Is("clear") /\ Clear
    \/ Is("pushb") /\ PushBack(a[1])
    \/ Is("pushf") /\ PushFront(a[1])
    \/ Is("popb") /\ PopBack
    \/ Is("popf") /\ PopFront
    \/ Is("pushbn") /\ PushBackN(a[1], a[2])
    \/ Is("pushfn") /\ PushFrontN(a[1], a[2])
    \/ Is("popbn") /\ PopBackN(a[1])
    \/ Is("popfn") /\ PopFrontN(a[1])
    \/ Is("extend") /\ Extend(a[1], Tail(a))
    \/ Is("adopt") /\ Adopt(a, Pairs(DropFirst(a, 2)))
    \/ Is("extref") /\ ExtendRef(a)
    \/ Is("setf") /\ SetFront(a[1])
    \/ Is("setb") /\ SetBack(a[1])
    \/ Is("set") /\ Set(a[1], a[2])
    \/ Is("nth") /\ Nth(a[1], a[2])
    \/ Is("last") /\ LastOf(a[1])
    \/ Is("iter") /\ Iterate(a[1], a[2])
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Contents == Judge(Has("c") => O.c = s)
Lengths == Judge(Has("n") => O.n = <<Len(s), Len(s), B(s = <<>>), B(s = <<>>)>>)
Ends == Judge(Has("fr") => O.fr = Head1(s) /\ O.bk = Last1(s))
Printed == Judge(Has("dbg") => O.dbg = s)
IterHint == Judge(Has("ih") => LET rem == Len(s) - Min(O.a[2], Len(s)) IN
                                O.ih[1] <= rem /\ (O.ih[2] = -1 \/ O.ih[2] >= rem))
\* the ring, as C++ code would walk it
RingForward == Judge(Has("rf") => O.rf = s)
RingBackward == Judge(Has("rb") => O.rb = Rev(s))
RingCount == Judge(Has("cnt") => O.cnt = Len(s))
\* nodes: inside the list object (own, offset) or filling an allocated block
Own(i) == O.pl[i][1] = 1
ObjSize == O.geo[1]
NodeSize == O.geo[2]
Nodes == Judge(Has("pl") => \A i \in 1..Len(O.pl) :
    /\ O.pl[i][1] \in {0, 1}
    /\ Own(i) => /\ O.pl[i][2] >= ObjSize - (nown + 1) * NodeSize
                 /\ O.pl[i][2] + NodeSize <= ObjSize
                 /\ (O.pl[i][2] + O.geo[4]) % O.geo[3] = 0
    /\ ~Own(i) => O.pl[i][2] > 0 /\ O.pl[i][3] = 0)
\* no two on top of each other (own nodes start at multiples of the alignment, by the above)
Apart == Judge(Has("pl") =>
    LET mine == {i \in 1..Len(O.pl) : Own(i)}
        at == {O.pl[i][2] : i \in mine}
        inside == {d \in 1..(NodeSize - 1) : d % O.geo[3] = 0}
    IN /\ Cardinality(at) = Cardinality(mine)
       /\ \A x \in at, d \in inside : x + d \notin at
       /\ Cardinality({O.pl[i][2] : i \in (1..Len(O.pl)) \ mine}) = Len(O.pl) - Cardinality(mine))
Place == Judge(Has("pl") => [i \in 1..Len(O.pl) |-> O.pl[i][1]] = ow)
Calls(k) == Cardinality({i \in 1..Len(O.m) : O.m[i][1] = k})
Asked == Judge((Has("m") /\ O.op # "extref") => Calls(0) = last.na)
GivenBack == Judge((Has("m") /\ O.op # "extref") => Calls(1) = last.nf)
MemErrs == Judge(Has("me") => O.me = <<>>)
=============================================================================
