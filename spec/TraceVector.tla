---------------------------- MODULE TraceVector -----------------------------
(* Conformance of recorded vector executions with VectorSpec.                  *)
EXTENDS VectorSpec, TraceBase
tvars == <<vvars, tid, l>>

TInit == VInit /\ TraceStart
a == E.a
Act ==
    \/ Is("new") /\ New("new")
    \/ Is("default") /\ New("default")
    \/ Is("newin") /\ New("newin")
    \/ Is("drop") /\ New("drop")
    \/ Is("withcap") /\ WithCap(a[1])
    \/ Is("fromslice") /\ FromBuf("fromslice", a)
    \/ Is("frommut") /\ FromBuf("frommut", a)
    \/ Is("fromin") /\ FromBuf("fromin", a)
    \/ Is("fromarr") /\ FromBuf("fromarr", a)
    \/ Is("fromarrref") /\ FromBuf("fromarrref", a)
    \/ Is("fromiter") /\ FromIter(a[1], Tail(a), IF "k" \in DOMAIN E THEN E.k ELSE Len(a) - 1)
    \/ Is("adopt") /\ Adopt(a[1], Tail(a))
    \/ Is("push") /\ Push(a[1])
    \/ Is("pop") /\ Pop
    \/ Is("insert") /\ Insert(a[1], a[2])
    \/ Is("remove") /\ Remove(a[1])
    \/ Is("set") /\ Set(a[1], a[2])
    \/ Is("swap") /\ Swap(a[1], a[2])
    \/ Is("get") /\ Get(a[1])
    \/ Is("append") /\ AppendAll(a)
    \/ Is("assign") /\ Assign(a)
    \/ Is("clear") /\ Clear
    \/ Is("reserve") /\ Reserve(a[1])
    \/ Is("pushn") /\ PushN(a[1], a[2])
    \/ Is("popn") /\ PopN(a[1])
    \/ Is("insn") /\ InsN(a[1], a[2], a[3])
    \/ Is("remn") /\ RemN(a[1], a[2])
    \/ Is("clone") /\ CloneV
    \/ Is("swapw") /\ SwapW
    \/ Is("dropw") /\ DropW
    \/ Is("intoiter") /\ IntoIter
    \/ Is("inext") /\ INext
    \/ Is("inback") /\ INextBack
    \/ Is("inth") /\ INth(a[1])
    \/ Is("inthb") /\ INthBack(a[1])
    \/ Is("icount") /\ ICount
    \/ Is("ilast") /\ ILast
    \/ Is("iset") /\ ISet(a[1], a[2])
    \/ Is("icollect") /\ ICollect
    \/ Is("idrop") /\ IDrop
    \/ Is("fin") /\ Fin
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

(* --- judgements on what was observed after each operation --- *)
Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Contents == Judge(Has("c") => O.c = s)
Lengths == Judge(Has("n") => O.n = Len(s) /\ O.e = B(s = <<>>))
Printed == Judge(Has("dbg") => O.dbg = s)
CloneContents == Judge(Has("w") => (w # None /\ O.w = w[1].s))
Capacity == Judge(Has("k") => O.k = cap)
CloneCapacity == Judge(Has("wk") => (w # None /\ O.wk = w[1].cap))
Full == Judge(Has("f") => O.f = B(Len(s) = cap))
\* the image: end and capacity pointers agree with length and capacity; the storage block is exactly the capacity
Image == Judge(Has("raw") => O.raw = <<Len(s), cap>> /\ O.bs = cap /\ (cap = 0 <=> O.g = 0))
\* storage moves only together with a capacity change
NewObject == {"new", "default", "newin", "withcap", "fromslice", "frommut", "fromin", "fromarr", "fromarrref",
              "fromiter", "adopt", "swapw", "intoiter", "fin", "drop"}
Stable == Judge((Has("g") /\ l > 2 /\ O.op \notin NewObject /\ O.k = Prev.k) => O.g = Prev.g)
IterRemaining == Judge(Has("ic") => /\ it # None
                                     /\ O.ic = it[1].s /\ O.in = Len(it[1].s) /\ O.ie = B(it[1].s = <<>>)
                                     /\ O.ik = it[1].cap)
IterHint == Judge(Has("ih") => /\ O.ih[1] <= Len(it[1].s)
                               /\ (O.ih[2] = -1 \/ O.ih[2] >= Len(it[1].s)))
=============================================================================
