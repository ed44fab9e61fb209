------------------------------- MODULE MCHash -------------------------------
(* HashSpec next to the bucket chains and the iterator's cursor.               *)
EXTENDS HashSpec, TLC, Json
CONSTANTS U, Mode, Iters, Clones, Emit
VARIABLES ch, cur, cur2, nxt
ivars == <<ch, cur, cur2, nxt>>
Hash(k) == CASE Mode = 0 -> k [] Mode = 1 -> 0 [] Mode = 2 -> k % 2 [] Mode = 3 -> k % 3
             [] Mode = 5 -> k * 11 [] Mode = 7 -> k \div 4
Idx(k, b) == (Hash(k) % b) + 1
Keys == 0..(U - 1)

MCInit == HInit /\ ch = <<<<>>>> /\ cur = <<>> /\ cur2 = <<>> /\ nxt = 1
RECURSIVE Move(_, _)
\* relink every node of q, in order, at the head of its new bucket
Move(nb, q) == IF q = <<>> THEN nb
               ELSE Move([nb EXCEPT ![Idx(q[1][1], Len(nb))] = <<q[1]>> \o @], Tail(q))
RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>> ELSE c[1] \o Flat(Tail(c))
Rehashed(b) == IF b = Len(ch) THEN ch ELSE Move([i \in 1..b |-> <<>>], Flat(ch))
Pos(c, k) == {i \in 1..Len(c) : c[i][1] = k}
Hit(k) == Pos(ch[Idx(k, Len(ch))], k)
Store(k, v) ==
    LET b == Idx(k, Len(ch)) IN
    ch' = IF Hit(k) # {} THEN [ch EXCEPT ![b][CHOOSE i \in Hit(k) : TRUE] = <<k, v>>]
          ELSE LET r == Rehashed(NextBc(Len(ch), Len(Flat(ch)))) IN
               [r EXCEPT ![Idx(k, Len(r))] = << <<k, v>> >> \o @]
Unlink(k) == IF Hit(k) = {} THEN ch' = ch
             ELSE ch' = [ch EXCEPT ![Idx(k, Len(ch))] = RemoveAtIdx(@, (CHOOSE i \in Hit(k) : TRUE) - 1)]
Idle == cur = <<>> /\ cur2 = <<>>
NoCur == UNCHANGED <<cur, cur2>>
One == nxt' = nxt + 1
MInsert(k) == Insert(k, nxt) /\ Store(k, nxt) /\ One /\ NoCur
MRemove(k) == Remove(k) /\ Unlink(k) /\ UNCHANGED nxt /\ NoCur
MRemoveE(k) == RemoveEntry(k) /\ Unlink(k) /\ UNCHANGED nxt /\ NoCur
MClear == Clear /\ ch' = [i \in 1..Len(ch) |-> <<>>] /\ UNCHANGED nxt /\ NoCur
MEntIns(k) == EntIns(k, nxt) /\ (IF Hit(k) = {} THEN Store(k, nxt) ELSE UNCHANGED ch) /\ One /\ NoCur
MEntInsSet(k) == EntInsSet(k, nxt, nxt + 1) /\ Store(k, nxt + 1) /\ nxt' = nxt + 2 /\ NoCur
MEntWith(k) == EntWith(k, nxt) /\ (IF Hit(k) = {} THEN Store(k, nxt) ELSE UNCHANGED ch) /\ One /\ NoCur
MEntMod(k) == EntMod(k, nxt) /\ (IF Hit(k) # {} THEN Store(k, nxt) ELSE UNCHANGED ch) /\ One /\ NoCur
MEntModIns(k) == EntModIns(k, nxt, nxt + 1) /\ Store(k, IF Hit(k) # {} THEN nxt ELSE nxt + 1)
                 /\ nxt' = nxt + 2 /\ NoCur
MEntDrop(k) == EntDrop(k) /\ UNCHANGED ivars
MGetSet(k) == GetSet(k, nxt) /\ (IF Hit(k) # {} THEN Store(k, nxt) ELSE UNCHANGED ch) /\ One /\ NoCur
\* cursor: <<bucket, position>> of the node to be visited next, <<0, 0>> past the end
RECURSIVE From(_)
From(b) == IF b > Len(ch) THEN <<0, 0>> ELSE IF ch[b] # <<>> THEN <<b, 1>> ELSE From(b + 1)
Next(c) == IF c[2] < Len(ch[c[1]]) THEN <<c[1], c[2] + 1>> ELSE From(c[1] + 1)
At(c) == ch[c[1]][c[2]]
MItNew(k) == Iters /\ Idle /\ ItNew(<<k>>) /\ cur' = From(1) /\ UNCHANGED <<ch, cur2, nxt>>
MINext == /\ cur # <<>>
          /\ IF cur = <<0, 0>> THEN IEnd("inext", <<>>) /\ UNCHANGED cur
             ELSE INextAt(At(cur)[1]) /\ cur' = Next(cur)
          /\ UNCHANGED <<ch, cur2, nxt>>
MIClone == Clones /\ cur # <<>> /\ cur2 = <<>> /\ IClone /\ cur2' = cur /\ UNCHANGED <<ch, cur, nxt>>
MISwap == cur2 # <<>> /\ ISwap /\ cur' = cur2 /\ cur2' = cur /\ UNCHANGED <<ch, nxt>>
MICompat(k) == cur # <<>> /\ ICompat(<<k>>) /\ UNCHANGED ivars
MIDrop == cur # <<>> /\ IDrop /\ cur' = <<>> /\ UNCHANGED <<ch, cur2, nxt>>
MIDrop2 == cur2 # <<>> /\ IDrop2 /\ cur2' = <<>> /\ UNCHANGED <<ch, cur, nxt>>
MNext == \/ /\ Idle
            /\ \/ \E k \in Keys : \/ MInsert(k) \/ MRemove(k) \/ MEntIns(k)
                                  \/ ~Iters /\ (\/ MRemoveE(k) \/ MEntInsSet(k) \/ MEntWith(k) \/ MEntMod(k)
                                                \/ MEntModIns(k) \/ MEntDrop(k) \/ MGetSet(k))
               \/ MClear \/ \E k \in {0, 1} : MItNew(k)
         \/ MINext \/ MIClone \/ MISwap \/ MIDrop \/ MIDrop2 \/ \E k \in 0..2 : MICompat(k)
MSpec == MCInit /\ [][MNext]_<<hvars, ivars>>
(* Handed over by C++: any bucket count (also one that is no prime) with room for the entries, any order in a chain. *)
Orders(S) == {q \in [1..Cardinality(S) -> S] : Cardinality(Range(q)) = Cardinality(S)}
AInit == \E b \in 1..(U + 2) : \E ks \in SUBSET Keys :
           /\ Cardinality(ks) <= b /\ (b = 1 => ks = {})
           /\ \E q \in Orders(ks) :
                ch = [i \in 1..b |-> LET c == SelectSeq(q, LAMBDA k : Idx(k, b) = i) IN
                                     [j \in 1..Len(c) |-> <<c[j], c[j]>>]]
           /\ m = [k \in ks |-> <<k, k>>] /\ bc = b
           /\ it = None /\ it2 = None /\ cur = <<>> /\ cur2 = <<>> /\ nxt = U + 1
           /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>]
Loaded == N <= bc /\ (bc = 1 => N = 0)
ASpec == AInit /\ [][MNext]_<<hvars, ivars>>

Refine == /\ Range(Flat(ch)) = {<<k, m[k][2]>> : k \in DOMAIN m} /\ Len(Flat(ch)) = N
          /\ Len(ch) = bc
          /\ \A b \in 1..Len(ch) : \A i \in 1..Len(ch[b]) : Idx(ch[b][i][1], Len(ch)) = b
RECURSIVE Walk(_)
Walk(c) == IF c = <<0, 0>> THEN <<>> ELSE <<At(c)[1]>> \o Walk(Next(c))
Cursor(c, i) == IF c = <<>> THEN i = None ELSE i # None /\ Range(Walk(c)) = i[1] /\ NoDup(Walk(c))
Cursors == Cursor(cur, it) /\ Cursor(cur2, it2)
Shape == <<[b \in 1..Len(ch) |-> [i \in 1..Len(ch[b]) |-> ch[b][i][1]]], cur, cur2>>
EmitEdge == Emit => PrintT(ToJson(<<Shape, last'.op, last'.a, Shape'>>))
=============================================================================
