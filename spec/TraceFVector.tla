---------------------------- MODULE TraceFVector ----------------------------
(* Conformance of recorded fixed vector executions with FVectorSpec.           *)
EXTENDS FVectorSpec, TraceBase
tvars == <<fvars, tid, l>>
TInit == TraceStart /\ FInit(Traces[tid].cfg.cap)
a == E.a
Act ==
    \/ Is("new") /\ FNew("new")
    \/ Is("newin") /\ FNew("newin")
    \/ Is("drop") /\ FNew("drop")
    \/ Is("adopt") /\ FAdopt(a[1], Tail(a))
    \/ Is("clear") /\ FClear
    \/ Is("fin") /\ FFin
    \/ Is("move") /\ Move("move")
    \/ Vec(\/ Is("push") /\ Push(a[1])
           \/ Is("pop") /\ Pop
           \/ Is("insert") /\ Insert(a[1], a[2])
           \/ Is("remove") /\ Remove(a[1])
           \/ Is("set") /\ Set(a[1], a[2])
           \/ Is("swap") /\ Swap(a[1], a[2])
           \/ Is("get") /\ Get(a[1])
           \/ Is("append") /\ AppendAll(a)
           \/ Is("assign") /\ Assign(a)
           \/ Is("reserve") /\ Reserve(a[1])
           \/ Is("clone") /\ CloneV
           \/ Is("dropw") /\ DropW)
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Contents == Judge(Has("c") => O.c = s)
Lengths == Judge(Has("n") => O.n = Len(s) /\ O.e = B(s = <<>>))
Printed == Judge(Has("dbg") => O.dbg = s)
CloneContents == Judge(Has("w") => (w # None /\ O.w = w[1].s))
MaxSize == Judge(Has("mx") => O.mx = size)
Overflow == Judge(Has("of") => O.of = B(over))
\* the elements really are in the object, or really are not
Placed == Judge(Has("inl") => O.inl = B(~over))
Capacity == Judge(Has("k") => O.k = cap /\ O.f = B(Len(s) = cap))
\* blocks held by the vector itself
Blocks == Judge(Has("hb") => O.hb = B(over))
\* nothing is requested while the elements stay where they are
NoRequest == Judge((Has("rq") /\ l > 2 /\ O.op \notin {"clone", "adopt"}) =>
                   (O.rq > 0) = (O.op \in {"push", "insert", "append", "assign", "reserve"} /\ O.k # Prev.k))
\* bytes around the object are untouched
Guard == Judge(Has("gd") => O.gd = 1)
=============================================================================
