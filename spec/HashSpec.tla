------------------------------ MODULE HashSpec ------------------------------
(* Hash maps and hash sets as finite maps, with EASTL's bucket count.  Keys are *)
(* numbers, equal when they agree modulo 1000 (so that the stored key and the   *)
(* key of a later call can be told apart).  Of a set, every value is 0.         *)
EXTENDS SeqOps, PrimePolicy
VARIABLES
    m,       \* key class -> <<stored key, value>>
    bc,      \* buckets
    it, it2, \* iterators: None, or Some(classes not yet visited)
    last
hvars == <<m, bc, it, it2, last>>

Cls(k) == k % 1000
N == Cardinality(DOMAIN m)
In(k) == Cls(k) \in DOMAIN m
Sk(k) == m[Cls(k)][1]
Val(k) == m[Cls(k)][2]
Found(k) == IF In(k) THEN Some(Val(k)) ELSE None
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Empty == [x \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {Cls(k)} |->
                     IF x = Cls(k) THEN <<IF x \in DOMAIN f THEN f[x][1] ELSE k, v>> ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {Cls(k)} |-> f[x]]
BcWith(f, b, k) == IF Cls(k) \in DOMAIN f THEN b ELSE NextBc(b, Cardinality(DOMAIN f))
NoIt == UNCHANGED <<it, it2>>
Same == UNCHANGED <<m, bc>> /\ NoIt

HInit == m = Empty /\ bc = 1 /\ it = None /\ it2 = None /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>]
New(op) == m' = Empty /\ bc' = 1 /\ it' = None /\ it2' = None /\ Did(op, <<>>, <<>>)
\* f, then everything of g stored into it
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                  <<IF x \in DOMAIN f THEN f[x][1] ELSE g[x][1], IF x \in DOMAIN g THEN g[x][2] ELSE f[x][2]>>]
RECURSIVE Built(_)
\* a flat sequence of key, value, key, value, ..., inserted from left to right
Built(q) == IF q = <<>> THEN Empty
            ELSE IF Len(q) = 2 THEN With(Empty, q[1], q[2])
            ELSE LET h == 2 * (Len(q) \div 4) IN Over(Built(SubSeq(q, 1, h)), Built(SubSeq(q, h + 1, Len(q))))
\* the buckets of a table of b buckets and i entries that grows to n entries
RECURSIVE BcUpTo(_, _, _)
BcUpTo(b, i, n) == IF i = n THEN b ELSE BcUpTo(NextBc(b, i), i + 1, n)
Zip0(q) == [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE 0]
FromIter(a, q) == LET g == Built(q) IN
                  m' = g /\ bc' = BcUpTo(1, 0, Cardinality(DOMAIN g)) /\ it' = None /\ it2' = None /\ Did("fromiter", a, <<>>)
\* built by C++ with b buckets
Adopt(a, b, q) == m' = Built(q) /\ bc' = b /\ it' = None /\ it2' = None /\ Did("adopt", a, <<>>)
Put(k, v) == m' = With(m, k, v) /\ bc' = BcWith(m, bc, k) /\ NoIt
Insert(k, v) == Put(k, v) /\ Did("insert", <<k, v>>, Found(k))
Get(op, k) == Same /\ Did(op, <<k>>, Found(k))
GetSet(k, w) == /\ IF In(k) THEN Put(k, w) ELSE Same
                /\ Did("getset", <<k, w>>, Found(k))
Contains(k) == Same /\ Did("has", <<k>>, <<B(In(k))>>)
Take(k) == m' = Without(m, k) /\ UNCHANGED bc /\ NoIt
Remove(k) == Take(k) /\ Did("remove", <<k>>, Found(k))
RemoveEntry(k) == Take(k) /\ Did("removeent", <<k>>, IF In(k) THEN <<Sk(k), Val(k)>> ELSE None)
Clear == m' = Empty /\ UNCHANGED bc /\ NoIt /\ Did("clear", <<>>, <<>>)
\* sets
SInsert(k) == Put(k, 0) /\ Did("insert", <<k>>, <<B(~In(k))>>)
SGet(k) == Same /\ Did("get", <<k>>, IF In(k) THEN Some(Sk(k)) ELSE None)
SRemove(k) == Take(k) /\ Did("remove", <<k>>, IF In(k) THEN Some(Sk(k)) ELSE None)
\* entries
EntDrop(k) == Same /\ Did("entdrop", <<k>>, <<>>)
EntIns(k, v) == /\ IF In(k) THEN Same ELSE Put(k, v)
                /\ Did("entins", <<k, v>>, <<IF In(k) THEN Val(k) ELSE v>>)
EntInsSet(k, v, w) == Put(k, w) /\ Did("entinsset", <<k, v, w>>, <<IF In(k) THEN Val(k) ELSE v>>)
EntWith(k, v) == /\ IF In(k) THEN Same ELSE Put(k, v)
                 /\ Did("entwith", <<k, v>>, IF In(k) THEN <<Val(k), 0>> ELSE <<v, 1>>)
EntMod(k, d) == /\ IF In(k) THEN Put(k, d) ELSE Same
                /\ Did("entmod", <<k, d>>, IF In(k) THEN <<1, Val(k)>> ELSE <<0, 0>>)
EntModIns(k, d, v) == /\ Put(k, IF In(k) THEN d ELSE v)
                      /\ Did("entmodins", <<k, d, v>>, IF In(k) THEN <<d, 1>> ELSE <<v, 0>>)
\* iterators: the order is free, everything is visited once
ItNew(a) == it' = Some(DOMAIN m) /\ UNCHANGED <<m, bc, it2>> /\ Did("itnew", a, <<>>)
INextAt(k) == /\ it # None /\ k \in it[1]
              /\ it' = Some(it[1] \ {k}) /\ UNCHANGED <<m, bc, it2>> /\ Did("inext", <<>>, m[k])
INextSetAt(k, w) == /\ it # None /\ k \in it[1]
                    /\ it' = Some(it[1] \ {k}) /\ m' = [m EXCEPT ![k][2] = w] /\ UNCHANGED <<bc, it2>>
                    /\ Did("inextset", <<w>>, m[k])
IEnd(op, a) == /\ it # None /\ it[1] = {} /\ Same /\ Did(op, a, <<>>)
IClone == it2' = it /\ UNCHANGED <<m, bc, it>> /\ Did("iclone", <<>>, <<>>)
ISwap == it2' = it /\ it' = it2 /\ UNCHANGED <<m, bc>> /\ Did("iswap", <<>>, <<>>)
ICompat(a) == Same /\ Did("icompat", a, <<>>)
PairsOf(q) == [i \in 1..(Len(q) \div 2) |-> <<q[2 * i - 1], q[2 * i]>>]
\* q (key, value, ...) lists each remaining entry once
Lists(q, S) == /\ Len(q) = 2 * Cardinality(S)
               /\ Range(PairsOf(q)) = {m[k] : k \in S}
IRest(q) == /\ it # None /\ Lists(q, it[1]) /\ it' = None /\ UNCHANGED <<m, bc, it2>> /\ Did("irest", <<>>, q)
\* a jump over n entries; q: the entries passed (as another iterator at the same place finds them), then the jump's
INth(n, q) == LET p == Min(n + 1, Cardinality(it[1]))
                  g == [i \in 1..p |-> <<q[2 * i - 1], q[2 * i]>>]
                  ks == {k \in it[1] : m[k] \in Range(g)}
              IN /\ it # None
                 /\ Len(q) = 2 * p + (IF n < Cardinality(it[1]) THEN 2 ELSE 0)
                 /\ Range(g) \subseteq {m[k] : k \in it[1]} /\ Cardinality(ks) = p
                 /\ n < Cardinality(it[1]) => g[p] = <<q[2 * p + 1], q[2 * p + 2]>>
                 /\ it' = Some(it[1] \ ks) /\ UNCHANGED <<m, bc, it2>> /\ Did("inth", <<n>>, q)
ICount == it # None /\ it' = None /\ UNCHANGED <<m, bc, it2>> /\ Did("icount", <<>>, <<Cardinality(it[1])>>)
ILastAt(q) == /\ it # None /\ it' = None /\ UNCHANGED <<m, bc, it2>>
              /\ IF it[1] = {} THEN q = <<>> ELSE \E k \in it[1] : q = m[k]
              /\ Did("ilast", <<>>, q)
IDrop == it' = None /\ UNCHANGED <<m, bc, it2>> /\ Did("idrop", <<>>, <<>>)
IDrop2 == it2' = None /\ UNCHANGED <<m, bc, it>> /\ Did("idrop2", <<>>, <<>>)

LoadBounded == N <= bc /\ (bc = 1 => N = 0) /\ (bc > 1 => bc \in Range(Primes))
=============================================================================
