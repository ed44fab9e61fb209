----------------------------- MODULE StringSpec -----------------------------
(* Strings as sequences of characters (code points), stored as UTF-8.          *)
(* Positions are byte positions.                                               *)
EXTENDS SeqOps
SE == INSTANCE SequencesExt
VARIABLES
    s,       \* the text: code points
    w,       \* a clone: None or Some(text)
    room,    \* least capacity the last operation promised
    last
svars == <<s, w, room, last>>

Width(c) == CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4
Low(x) == 128 + (x % 64)        \* a continuation byte
Enc(c) == CASE c < 128 -> <<c>>
            [] c < 2048 -> <<192 + (c \div 64), Low(c)>>
            [] c < 65536 -> <<224 + (c \div 4096), Low(c \div 64), Low(c)>>
            [] OTHER -> <<240 + (c \div 262144), Low(c \div 4096), Low(c \div 64), Low(c)>>
Bytes(q) == SE!FoldLeft(LAMBDA b, c : b \o Enc(c), <<>>, q)
Size(q) == SE!FoldLeft(LAMBDA n, c : n + Width(c), 0, q)
\* the number of characters before byte i, or -1 inside a character or past the end
CharAt(q, i) == LET at == SE!FoldLeft(LAMBDA x, c : IF x[1] >= i THEN x ELSE <<x[1] + Width(c), x[2] + 1>>, <<0, 0>>, q)
                IN IF at[1] = i THEN at[2] ELSE -1
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c

Did(op, a, r, p) == last' = [op |-> op, a |-> a, r |-> r, p |-> p]
SInit == s = <<>> /\ w = None /\ room = 0 /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
K == UNCHANGED w /\ room' = 0
Become(op, a, q) == s' = q /\ K /\ Did(op, a, <<>>, 0)
New(op) == Become(op, <<>>, <<>>)
WithCapacity(n) == s' = <<>> /\ UNCHANGED w /\ room' = n /\ Did("withcap", <<n>>, <<>>, 0)
Push(c) == Become("push", <<c>>, Append(s, c))
\* the same character n times over (long texts observed only at the end)
PushN(c, n) == Become("pushn", <<c, n>>, s \o [i \in 1..n |-> c])
PopN(n) == n <= Len(s) /\ s' = SubSeq(s, 1, Len(s) - n) /\ K /\ Did("popn", <<n>>, Rev(SubSeq(s, Len(s) - n + 1, Len(s))), 0)
Pop == /\ K /\ IF s = <<>> THEN s' = s /\ Did("pop", <<>>, None, 0)
               ELSE s' = SubSeq(s, 1, Len(s) - 1) /\ Did("pop", <<>>, Some(s[Len(s)]), 0)
Insert(i, c) == LET p == CharAt(s, i) IN
                IF p = -1 THEN UNCHANGED s /\ K /\ Did("insert", <<i, c>>, <<>>, 1)
                ELSE s' = InsertAtIdx(s, p, c) /\ K /\ Did("insert", <<i, c>>, <<>>, 0)
Remove(i) == LET p == CharAt(s, i) IN
             IF i >= Size(s) THEN UNCHANGED s /\ K /\ Did("remove", <<i>>, None, 0)
             ELSE IF p = -1 THEN UNCHANGED s /\ K /\ Did("remove", <<i>>, <<>>, 1)
             ELSE s' = RemoveAtIdx(s, p) /\ K /\ Did("remove", <<i>>, Some(s[p + 1]), 0)
Assign(q) == Become("assign", q, q)
AssignW(a) == Become("assignw", a, IF w = None THEN s ELSE w[1])
Reserve(n) == UNCHANGED <<s, w>> /\ room' = n /\ Did("reserve", <<n>>, <<>>, 0)
UpperAll == Become("upper", <<>>, [i \in 1..Len(s) |-> Upper(s[i])])
Clone == w' = Some(s) /\ UNCHANGED s /\ room' = 0 /\ Did("clone", <<>>, <<>>, 0)
SwapW == /\ IF w = None THEN UNCHANGED <<s, w>> ELSE s' = w[1] /\ w' = Some(s)
         /\ room' = 0 /\ Did("swapw", <<>>, <<>>, 0)
DropW == w' = None /\ UNCHANGED s /\ room' = 0 /\ Did("dropw", <<>>, <<>>, 0)
Fin == s' = <<>> /\ w' = None /\ room' = 0 /\ Did("fin", <<>>, <<>>, 0)
PanicChangesNothing == [][ last'.p = 1 => UNCHANGED <<s, w>> ]_svars
=============================================================================
