------------------------------ MODULE TreeSpec ------------------------------
(* A map or set over a red-black tree built by C++ code, as a user sees it:    *)
(* entries in comparator order.  Trees are sequences of nodes                  *)
(* [k, v, l, r, c]: key, value, left and right child (0 for none), color       *)
(* (0 red, 1 black); a tree is [root, nodes].                                  *)
EXTENDS SeqOps
VARIABLES e,      \* entries <<key, value>>, in order
          ord,    \* comparator: 0 less, 1 greater, 2 by half
          last
tvs == <<e, ord, last>>
Did(op, a, r, p) == last' = [op |-> op, a |-> a, r |-> r, p |-> p]

\* keys 1000 apart are equal keys
Cls(k) == IF ord = 2 THEN (k % 1000) \div 2 ELSE k % 1000
Lt(x, y) == IF ord = 1 THEN Cls(x) > Cls(y) ELSE Cls(x) < Cls(y)

(* --- images --- *)
RECURSIVE InOrder(_, _)
InOrder(t, i) == IF i = 0 THEN <<>>
                 ELSE InOrder(t, t[i].l) \o <<<<t[i].k, t[i].v>>>> \o InOrder(t, t[i].r)
\* black height, or -1 when the colors are not those of a red-black tree
RECURSIVE BlackH(_, _)
BlackH(t, i) == IF i = 0 THEN 0
                ELSE LET x == BlackH(t, t[i].l)
                         y == BlackH(t, t[i].r)
                         redred == t[i].c = 0 /\ \E j \in {t[i].l, t[i].r} \ {0} : t[j].c = 0
                     IN IF x = -1 \/ x # y \/ redred THEN -1 ELSE x + t[i].c
Sorted(q) == \A i \in 1..(Len(q) - 1) : Lt(q[i][1], q[i + 1][1])
WellFormed(root, t) ==
    LET q == InOrder(t, root) IN
    /\ Len(q) = Len(t) /\ Sorted(q)
    /\ (root # 0 => t[root].c = 1) /\ BlackH(t, root) # -1

(* --- what a user can do --- *)
At(k) == {i \in 1..Len(e) : ~Lt(e[i][1], k) /\ ~Lt(k, e[i][1])}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
TInit0 == e = <<>>
Build(root, t, a) == /\ e = <<>> /\ WellFormed(root, t)
                     /\ e' = InOrder(t, root) /\ UNCHANGED ord /\ Did("build", a, <<>>, 0)
Hask(k) == UNCHANGED <<e, ord>> /\ Did("has", <<k>>, <<B(At(k) # {})>>, 0)
Get(k) == UNCHANGED <<e, ord>> /\ Did("get", <<k>>, IF At(k) = {} THEN None ELSE Some(e[CHOOSE i \in At(k) : TRUE][2]), 0)
SetV(k, v) == LET s == At(k) IN
              /\ IF s = {} THEN e' = e /\ Did("set", <<k, v>>, None, 0)
                 ELSE LET i == CHOOSE i \in s : TRUE IN
                      e' = [e EXCEPT ![i][2] = v] /\ Did("set", <<k, v>>, Some(e[i][2]), 0)
              /\ UNCHANGED ord
Show(q, set) == IF set THEN [i \in 1..Len(q) |-> q[i][1]] ELSE Flat(q)
Iter(m, set) == UNCHANGED <<e, ord>> /\ Did("iter", <<m>>, Show(SubSeq(e, 1, Min(m, Len(e))), set), 0)
IterMut(m, d) == /\ e' = [i \in 1..Len(e) |-> IF i <= m THEN <<e[i][1], d + i - 1>> ELSE e[i]]
                 /\ UNCHANGED ord /\ Did("itermut", <<m, d>>, Flat(SubSeq(e, 1, Min(m, Len(e)))), 0)
Clear == e' = <<>> /\ UNCHANGED ord /\ Did("clear", <<>>, <<>>, 0)
New(i) == e' = <<>> /\ UNCHANGED ord /\ Did("new", <<i>>, <<>>, 0)
Fin == e' = <<>> /\ UNCHANGED ord /\ Did("fin", <<>>, <<>>, 0)
\* a fixed map without overflow: so many nodes are left
Room(n) == UNCHANGED <<e, ord>> /\ Did("room", <<>>, <<n - Len(e)>>, 0)
=============================================================================
