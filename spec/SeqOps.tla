------------------------------- MODULE SeqOps -------------------------------
(* Operators on finite sequences shared by every container specification.      *)
EXTENDS Integers, Sequences, FiniteSets

None == <<>>                       \* an absent optional value; <<x>> is "some x"
Some(x) == <<x>>

InsertAtIdx(q, i, x) ==            \* 0-based: x ends up at index i
    SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RemoveAtIdx(q, i) ==
    SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
SetAtIdx(q, i, x) == [q EXCEPT ![i + 1] = x]
SwapIdx(q, i, j) == [q EXCEPT ![i + 1] = q[j + 1], ![j + 1] = q[i + 1]]
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
DropFirst(q, n) == SubSeq(q, n + 1, Len(q))
Up(v, n) == [i \in 1..n |-> v + i - 1]   \* n consecutive values
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Range(q) == {q[i] : i \in 1..Len(q)}
B(b) == IF b THEN 1 ELSE 0
NoDup(q) == Cardinality(Range(q)) = Len(q)
=============================================================================
