------------------------------ MODULE MCString ------------------------------
(* StringSpec next to the byte vector: a block of cap + 1 bytes whose unused   *)
(* bytes are unknown (-1), written byte by byte.                               *)
EXTENDS StringSpec, TLC, Json
CONSTANTS Chars, MaxBytes, MaxCap, Emit
VARIABLES mem, n, cap, tx     \* mem: the block (empty: no storage)
ivars == <<mem, n, cap, tx>>
\* the vector's state as a record, so that operations compose
St == [m |-> mem, n |-> n, c |-> cap]
Block(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN 0 ELSE -1]     \* the allocator terminates the block
Zero == [m |-> <<>>, n |-> 0, c |-> 0]
\* a larger block with the old bytes copied
Res(v, add) == IF add = 0 THEN v
               ELSE LET k == v.c + add IN
                    [m |-> [i \in 1..(k + 1) |-> IF i <= v.n THEN v.m[i] ELSE Block(k)[i]], n |-> v.n, c |-> k]
Grow(v) == IF v.n < v.c THEN v ELSE Res(v, IF v.c = 0 THEN 1 ELSE v.c)
InsB(v0, i, b) == LET v == Grow(v0) IN
    [v EXCEPT !.m = [j \in 1..Len(v.m) |-> IF j <= i THEN v.m[j] ELSE IF j = i + 1 THEN b
                                            ELSE IF j <= v.n + 1 THEN v.m[j - 1] ELSE v.m[j]],
              !.n = v.n + 1]
DelB(v, i) == [v EXCEPT !.m = [j \in 1..Len(v.m) |-> IF j <= i \/ j >= v.n THEN v.m[j] ELSE v.m[j + 1]], !.n = v.n - 1]
RECURSIVE InsAll(_, _, _)
InsAll(v, i, q) == IF q = <<>> THEN v ELSE InsAll(InsB(v, i, q[1]), i + 1, Tail(q))
RECURSIVE DelAll(_, _, _)
DelAll(v, i, k) == IF k = 0 THEN v ELSE DelAll(DelB(v, i), i, k - 1)
Term(v) == IF v.m = <<>> THEN v ELSE [v EXCEPT !.m[v.n + 1] = 0]
AssignB(v0, q) == LET v == IF Len(q) > v0.c THEN Res(v0, Len(q) - v0.c) ELSE v0 IN
    [v EXCEPT !.m = [j \in 1..Len(v.m) |-> IF j <= Len(q) THEN q[j] ELSE v.m[j]], !.n = Len(q)]
Reserve1(v, k) == Term(Res(v, k + 1))
Is_(v) == mem' = v.m /\ n' = v.n /\ cap' = v.c
Cut == Size(s') <= MaxBytes /\ cap' <= MaxCap /\ tx' = tx
MCInit == SInit /\ mem = <<>> /\ n = 0 /\ cap = 0 /\ tx = 0
Step == \/ \E c \in Chars : Push(c) /\ Is_(Term(InsAll(St, n, Enc(c))))
        \/ Pop /\ Is_(Term(IF s = <<>> THEN St ELSE [St EXCEPT !.n = n - Width(s[Len(s)])]))
        \/ \E i \in 0..(n + 1), c \in Chars :
              Insert(i, c) /\ Is_(IF CharAt(s, i) = -1 THEN St ELSE Term(InsAll(St, i, Enc(c))))
        \/ \E i \in 0..(n + 1) :
              Remove(i) /\ Is_(IF i >= n \/ CharAt(s, i) = -1 THEN St
                               ELSE Term(DelAll(St, i, Width(s[CharAt(s, i) + 1]))))
        \/ \E q \in {<<>>} \cup {<<c>> : c \in Chars} \cup {<<c, d>> : c, d \in Chars} :
              Assign(q) /\ Is_(Term(AssignB(Reserve1(St, Size(q)), Bytes(q))))
        \/ \E k \in {0, 1, 3} : Reserve(k) /\ Is_(Reserve1(St, k))
        \/ \E k \in {0, 1, 3} : WithCapacity(k) /\ Is_(Term(Res(Zero, k)))
        \/ UpperAll /\ Is_([St EXCEPT !.m = [j \in 1..Len(mem) |-> IF j <= n THEN Upper(mem[j]) ELSE mem[j]]])
        \/ New("drop") /\ Is_(Zero)
MNext == Step /\ Cut
MSpec == MCInit /\ [][MNext]_<<svars, ivars>>
Text == SubSeq(mem, 1, n) = Bytes(s)
Fits == n <= cap /\ room <= cap /\ (mem = <<>> => n = 0 /\ cap = 0) /\ (mem # <<>> => Len(mem) = cap + 1)
Terminated == mem # <<>> => mem[n + 1] = 0
\* what may be found in the unused bytes does not matter to what happens next
Shape == <<s, cap>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
