----------------------------- MODULE TraceHash ------------------------------
(* Conformance of recorded hash map and hash set executions with HashSpec.     *)
EXTENDS HashSpec, TraceBase
tvars == <<hvars, tid, l>>
IsSet == Traces[tid].kind = "hs"

TInit == TraceStart /\ HInit
a == E.a
Both ==
    \/ Is("new") /\ New("new")
    \/ Is("default") /\ New("default")
    \/ Is("newin") /\ New("newin")
    \/ Is("drop") /\ New("drop")
    \/ Is("fin") /\ New("fin")
    \/ Is("has") /\ Contains(a[1])
    \/ Is("clear") /\ Clear
    \/ Is("itnew") /\ ItNew(a)
    \/ Is("inext") /\ IF E.r = <<>> THEN IEnd("inext", <<>>) ELSE INextAt(Cls(E.r[1]))
    \/ Is("icompat") /\ ICompat(a)
    \/ Is("irest") /\ IRest(E.r)
    \/ Is("inth") /\ INth(a[1], E.r)
    \/ Is("icount") /\ ICount
    \/ Is("ilast") /\ ILastAt(E.r)
    \/ Is("idrop") /\ IDrop
OfMap ==
    \/ Is("adopt") /\ Adopt(a, a[1], DropFirst(a, 3))
    \/ Is("fromiter") /\ FromIter(a, Tail(a))
    \/ Is("insert") /\ Insert(a[1], a[2])
    \/ Is("get") /\ Get("get", a[1])
    \/ Is("getmut") /\ Get("getmut", a[1])
    \/ Is("getset") /\ GetSet(a[1], a[2])
    \/ Is("remove") /\ Remove(a[1])
    \/ Is("removeent") /\ RemoveEntry(a[1])
    \/ Is("inextset") /\ IF E.r = <<>> THEN IEnd("inextset", a) ELSE INextSetAt(Cls(E.r[1]), a[1])
    \/ Is("iclone") /\ IClone
    \/ Is("iswap") /\ ISwap
    \/ Is("idrop2") /\ IDrop2
    \/ Is("entdrop") /\ EntDrop(a[1])
    \/ Is("entins") /\ EntIns(a[1], a[2])
    \/ Is("entinsset") /\ EntInsSet(a[1], a[2], a[3])
    \/ Is("entwith") /\ EntWith(a[1], a[2])
    \/ Is("entmod") /\ EntMod(a[1], a[2])
    \/ Is("entmodins") /\ EntModIns(a[1], a[2], a[3])
OfSet ==
    \/ Is("adopt") /\ Adopt(a, a[1], Zip0(DropFirst(a, 3)))
    \/ Is("fromiter") /\ FromIter(a, Zip0(Tail(a)))
    \/ Is("insert") /\ SInsert(a[1])
    \/ Is("get") /\ SGet(a[1])
    \/ Is("remove") /\ SRemove(a[1])
TNext == \/ More /\ (Both \/ (~IsSet /\ OfMap) \/ (IsSet /\ OfSet)) /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = 0)
Pairs == {m[k] : k \in DOMAIN m}
Lengths == Judge(Has("n") => O.n = N /\ O.e = B(N = 0))
\* lookups of every key class below Len(O.g), and membership
Lookup == Judge(Has("g") => \A i \in 1..Len(O.g) :
              O.g[i] = IF ~In(i - 1) THEN (IF IsSet THEN -1 ELSE 0) ELSE IF IsSet THEN Sk(i - 1) ELSE Val(i - 1))
Member == Judge(Has("h") => \A i \in 1..Len(O.h) : O.h[i] = B(In(i - 1)))
\* a whole iteration
Whole == Judge(Has("c") => Len(O.c) = N /\ Range(O.c) = Pairs)
Printed == Judge(Has("dbg") => IF IsSet THEN /\ Len(O.dbg) = N
                                             /\ Range(O.dbg) = {p[1] : p \in Pairs}
                               ELSE Len(O.dbg) = 2 * N /\ Range(PairsOf(O.dbg)) = Pairs)
IterHint == Judge((Has("ih") /\ it # None) => /\ O.ih[1] <= Cardinality(it[1])
                                              /\ (O.ih[2] = -1 \/ O.ih[2] >= Cardinality(it[1])))
\* the image
Count == Judge(Has("ec") => O.ec = N)
Buckets == Judge(Has("bc") => O.bc = bc)
ArrayFits == Judge(Has("bb") => IF bc = 1 THEN O.bb = 0 ELSE O.bb > bc)
Marker == Judge(Has("sn") => O.sn = 1)
Placed == Judge(Has("log") => /\ \A i \in 1..Len(O.log) : O.log[i][1] = O.log[i][3]
                              /\ Len(O.log) = N
                              /\ {O.log[i][2] : i \in 1..Len(O.log)} = {p[1] : p \in Pairs})
=============================================================================
