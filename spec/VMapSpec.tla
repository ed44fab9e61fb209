------------------------------ MODULE VMapSpec ------------------------------
(* The vector map: a finite map whose entries are kept in comparator order.     *)
(* Keys are equal when they agree modulo 1000.                                  *)
EXTENDS SeqOps
VARIABLES
    m,       \* key class -> <<stored key, value>>
    ord,     \* comparator: 0 ascending, 1 descending, 2 by remainder modulo 3, then ascending
    last
vvars == <<m, ord, last>>

Cls(k) == k % 1000
Before(x, y) == CASE ord = 0 -> x < y
                  [] ord = 1 -> x > y
                  [] OTHER -> x % 3 < y % 3 \/ (x % 3 = y % 3 /\ x < y)
N == Cardinality(DOMAIN m)
In(k) == Cls(k) \in DOMAIN m
Sk(k) == m[Cls(k)][1]
Val(k) == m[Cls(k)][2]
Found(k) == IF In(k) THEN Some(Val(k)) ELSE None
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Empty == [x \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {Cls(k)} |->
                     IF x = Cls(k) THEN <<IF x \in DOMAIN f THEN f[x][1] ELSE k, v>> ELSE f[x]]
\* the entries as a slice: position = number of keys before
Sorted == [i \in 1..N |-> m[CHOOSE k \in DOMAIN m : Cardinality({j \in DOMAIN m : Before(j, k)}) = i - 1]]

VInit(o) == m = Empty /\ ord = o /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>]
K == UNCHANGED ord
Same == UNCHANGED m /\ K
New(op, a) == m' = Empty /\ K /\ Did(op, a, <<>>)
\* f, then everything of g stored into it
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                  <<IF x \in DOMAIN f THEN f[x][1] ELSE g[x][1], IF x \in DOMAIN g THEN g[x][2] ELSE f[x][2]>>]
RECURSIVE Built(_)
\* a flat sequence of key, value, key, value, ..., stored from left to right
Built(q) == IF q = <<>> THEN Empty
            ELSE IF Len(q) = 2 THEN With(Empty, q[1], q[2])
            ELSE LET h == 2 * (Len(q) \div 4) IN Over(Built(SubSeq(q, 1, h)), Built(SubSeq(q, h + 1, Len(q))))
From(op, a, q) == m' = Built(q) /\ K /\ Did(op, a, <<>>)
Put(k, v) == m' = With(m, k, v) /\ K
Insert(k, v) == Put(k, v) /\ Did("insert", <<k, v>>, Found(k))
Get(op, k) == Same /\ Did(op, <<k>>, Found(k))
GetSet(k, w) == (IF In(k) THEN Put(k, w) ELSE Same) /\ Did("getset", <<k, w>>, Found(k))
Contains(k) == Same /\ Did("has", <<k>>, <<B(In(k))>>)
Take(k) == m' = [x \in DOMAIN m \ {Cls(k)} |-> m[x]] /\ K
Remove(k) == Take(k) /\ Did("remove", <<k>>, Found(k))
RemoveEntry(k) == Take(k) /\ Did("removeent", <<k>>, IF In(k) THEN <<Sk(k), Val(k)>> ELSE None)
Clear == m' = Empty /\ K /\ Did("clear", <<>>, <<>>)
EntQ(k) == Same /\ Did("entq", <<k>>, IF In(k) THEN <<1, Sk(k), Val(k)>> ELSE <<0, k>>)
EntOcc(k, w) == /\ IF In(k) THEN Put(k, w) ELSE Same
                /\ Did("entocc", <<k, w>>, IF In(k) THEN <<1, Val(k), w>> ELSE <<0, k>>)
EntVIn(k, v) == /\ IF In(k) THEN Same ELSE Put(k, v)
                /\ Did("entvin", <<k, v>>, IF In(k) THEN <<1, Val(k)>> ELSE <<0, v>>)
EntVInSet(k, v, w) == /\ IF In(k) THEN Same ELSE Put(k, w)
                      /\ Did("entvinset", <<k, v, w>>, IF In(k) THEN <<1, Val(k)>> ELSE <<0, v>>)
TotalOrder == \A x, y \in DOMAIN m : x # y => (Before(x, y) # Before(y, x))
Ordered == LET q == Sorted IN \A i \in 1..(N - 1) : Before(Cls(q[i][1]), Cls(q[i + 1][1]))
=============================================================================
