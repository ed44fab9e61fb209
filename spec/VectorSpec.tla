----------------------------- MODULE VectorSpec -----------------------------
(* A vector, its clone and its consuming iterator, as a user sees them.        *)
EXTENDS SeqOps
VARIABLES
    s,        \* contents
    cap,      \* capacity
    w,        \* None, or Some([s, cap]): a second vector made by cloning
    it,       \* None, or Some([s, cap]): a consuming iterator (remaining elements, capacity)
    last      \* the operation just performed: name, arguments, result, whether it panicked
vvars == <<s, cap, w, it, last>>

Grow(c) == IF c = 0 THEN 1 ELSE 2 * c
RECURSIVE GrowTo(_, _)
GrowTo(c, n) == IF c >= n THEN c ELSE GrowTo(Grow(c), n)

Did(op, a, r, p) == last' = [op |-> op, a |-> a, r |-> r, p |-> p]
Keep == UNCHANGED <<w, it>>

VInit == /\ s = <<>> /\ cap = 0 /\ w = None /\ it = None
         /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]

(* --- construction --- *)
New(op) == s' = <<>> /\ cap' = 0 /\ Keep /\ Did(op, <<>>, <<>>, 0)
WithCap(n) == s' = <<>> /\ cap' = n /\ Keep /\ Did("withcap", <<n>>, <<>>, 0)
FromBuf(op, q) == s' = q /\ cap' = Len(q) /\ Keep /\ Did(op, q, <<>>, 0)
\* from an iterator the capacity depends on its size hint; only c >= Len(q) is promised
FromIter(h, q, c) == /\ c >= Len(q)
                     /\ s' = q /\ cap' = c /\ Keep /\ Did("fromiter", <<h>> \o q, <<>>, 0)

\* built by C++ with room for c elements
Adopt(c, q) == /\ c >= Len(q)
               /\ s' = q /\ cap' = c /\ Keep /\ Did("adopt", <<c>> \o q, <<>>, 0)

(* --- element operations --- *)
Push(x) == /\ s' = Append(s, x)
           /\ cap' = IF Len(s) = cap THEN Grow(cap) ELSE cap
           /\ Keep /\ Did("push", <<x>>, <<>>, 0)
Pop == /\ IF s = <<>> THEN s' = s /\ Did("pop", <<>>, None, 0)
          ELSE s' = SubSeq(s, 1, Len(s) - 1) /\ Did("pop", <<>>, Some(s[Len(s)]), 0)
       /\ UNCHANGED cap /\ Keep
Insert(i, x) ==
    IF i > Len(s)
    THEN UNCHANGED <<s, cap>> /\ Keep /\ Did("insert", <<i, x>>, <<>>, 1)
    ELSE /\ s' = InsertAtIdx(s, i, x)
         /\ cap' = IF Len(s) = cap THEN Grow(cap) ELSE cap
         /\ Keep /\ Did("insert", <<i, x>>, <<>>, 0)
Remove(i) ==
    /\ IF i >= Len(s) THEN s' = s /\ Did("remove", <<i>>, None, 0)
       ELSE s' = RemoveAtIdx(s, i) /\ Did("remove", <<i>>, Some(s[i + 1]), 0)
    /\ UNCHANGED cap /\ Keep
Set(i, x) == /\ IF i >= Len(s) THEN s' = s /\ Did("set", <<i, x>>, <<>>, 1)
                ELSE s' = SetAtIdx(s, i, x) /\ Did("set", <<i, x>>, <<>>, 0)
             /\ UNCHANGED cap /\ Keep
Swap(i, j) == /\ IF Max(i, j) >= Len(s) THEN s' = s /\ Did("swap", <<i, j>>, <<>>, 1)
                 ELSE s' = SwapIdx(s, i, j) /\ Did("swap", <<i, j>>, <<>>, 0)
              /\ UNCHANGED cap /\ Keep
Get(i) == /\ UNCHANGED <<s, cap>> /\ Keep
          /\ Did("get", <<i>>, IF i < Len(s) THEN Some(s[i + 1]) ELSE None, 0)

(* --- bulk operations --- *)
AppendAll(q) == /\ s' = s \o q
                /\ cap' = Max(cap, Len(s) + Len(q))
                /\ Keep /\ Did("append", q, <<>>, 0)
Assign(q) == /\ s' = q
             /\ cap' = Max(cap, Len(q))
             /\ Keep /\ Did("assign", q, <<>>, 0)
Clear == s' = <<>> /\ cap' = 0 /\ Keep /\ Did("clear", <<>>, <<>>, 0)
Reserve(n) == cap' = cap + n /\ UNCHANGED s /\ Keep /\ Did("reserve", <<n>>, <<>>, 0)

(* --- many single operations in a row (long histories observed only at their ends) --- *)
PushN(v, n) == /\ s' = s \o Up(v, n) /\ cap' = GrowTo(cap, Len(s) + n)
               /\ Keep /\ Did("pushn", <<v, n>>, <<>>, 0)
PopN(n) == /\ n <= Len(s)
           /\ s' = SubSeq(s, 1, Len(s) - n) /\ UNCHANGED cap /\ Keep
           /\ Did("popn", <<n>>, Rev(SubSeq(s, Len(s) - n + 1, Len(s))), 0)
InsN(i, v, n) == /\ i <= Len(s)
                 /\ s' = SubSeq(s, 1, i) \o Rev(Up(v, n)) \o SubSeq(s, i + 1, Len(s))
                 /\ cap' = GrowTo(cap, Len(s) + n) /\ Keep /\ Did("insn", <<i, v, n>>, <<>>, 0)
RemN(i, n) == /\ i + n <= Len(s)
              /\ s' = SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s)) /\ UNCHANGED cap /\ Keep
              /\ Did("remn", <<i, n>>, SubSeq(s, i + 1, i + n), 0)

(* --- clone --- *)
CloneV == /\ w' = Some([s |-> s, cap |-> Len(s)])
          /\ UNCHANGED <<s, cap, it>> /\ Did("clone", <<>>, <<>>, 0)
SwapW == /\ IF w = None THEN UNCHANGED <<s, cap, w>>
            ELSE s' = w[1].s /\ cap' = w[1].cap /\ w' = Some([s |-> s, cap |-> cap])
         /\ UNCHANGED it /\ Did("swapw", <<>>, <<>>, 0)
DropW == w' = None /\ UNCHANGED <<s, cap, it>> /\ Did("dropw", <<>>, <<>>, 0)

(* --- consuming iterator --- *)
IntoIter == /\ it' = Some([s |-> s, cap |-> cap])
            /\ s' = <<>> /\ cap' = 0 /\ UNCHANGED w /\ Did("intoiter", <<>>, <<>>, 0)
INext == /\ it # None
         /\ LET q == it[1].s IN
            IF q = <<>> THEN it' = it /\ Did("inext", <<>>, None, 0)
            ELSE it' = Some([it[1] EXCEPT !.s = Tail(q)]) /\ Did("inext", <<>>, Some(q[1]), 0)
         /\ UNCHANGED <<s, cap, w>>
INextBack == /\ it # None
             /\ LET q == it[1].s IN
                IF q = <<>> THEN it' = it /\ Did("inback", <<>>, None, 0)
                ELSE it' = Some([it[1] EXCEPT !.s = SubSeq(q, 1, Len(q) - 1)])
                     /\ Did("inback", <<>>, Some(q[Len(q)]), 0)
             /\ UNCHANGED <<s, cap, w>>
Jump(op, n, q, r) == /\ it' = Some([it[1] EXCEPT !.s = q]) /\ UNCHANGED <<s, cap, w>>
                     /\ Did(op, <<n>>, IF n < Len(it[1].s) THEN Some(r) ELSE None, 0)
INth(n) == it # None /\ LET q == it[1].s IN Jump("inth", n, DropFirst(q, Min(n + 1, Len(q))), q[n + 1])
INthBack(n) == it # None /\ LET q == it[1].s IN Jump("inthb", n, SubSeq(q, 1, Len(q) - Min(n + 1, Len(q))), q[Len(q) - n])
ICount == it # None /\ it' = None /\ UNCHANGED <<s, cap, w>> /\ Did("icount", <<>>, <<Len(it[1].s)>>, 0)
ILast == /\ it # None /\ it' = None /\ UNCHANGED <<s, cap, w>>
         /\ Did("ilast", <<>>, IF it[1].s = <<>> THEN None ELSE Some(it[1].s[Len(it[1].s)]), 0)
ISet(i, x) == /\ it # None
              /\ IF i >= Len(it[1].s) THEN it' = it /\ Did("iset", <<i, x>>, <<>>, 1)
                 ELSE it' = Some([it[1] EXCEPT !.s = SetAtIdx(@, i, x)]) /\ Did("iset", <<i, x>>, <<>>, 0)
              /\ UNCHANGED <<s, cap, w>>
ICollect == /\ it # None
            /\ Did("icollect", <<>>, it[1].s, 0)
            /\ it' = None /\ UNCHANGED <<s, cap, w>>
IDrop == it' = None /\ UNCHANGED <<s, cap, w>> /\ Did("idrop", <<>>, <<>>, 0)
Fin == s' = <<>> /\ cap' = 0 /\ w' = None /\ it' = None /\ Did("fin", <<>>, <<>>, 0)

(* --- properties of the design --- *)
CapCoversLen == Len(s) <= cap /\ (w # None => Len(w[1].s) <= w[1].cap)
                              /\ (it # None => Len(it[1].s) <= it[1].cap)
\* capacity shrinks only by giving the storage away (clear, replacement, conversion)
CapMonotone == [][ cap' < cap => last'.op \in {"clear", "new", "default", "newin", "withcap", "fromslice",
      "frommut", "fromin", "fromarr", "fromarrref", "fromiter", "adopt", "swapw", "intoiter", "fin", "drop"} ]_vvars
\* an operation that panics changes nothing
PanicChangesNothing == [][ last'.p = 1 => UNCHANGED <<s, cap, w, it>> ]_vvars
=============================================================================
