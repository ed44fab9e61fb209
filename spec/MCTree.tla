------------------------------- MODULE MCTree -------------------------------
(* The code's algorithms over every red-black tree with at most MaxN nodes:    *)
(* descent, successor through parent pointers and the anchor, release of the   *)
(* nodes.  They run as a machine that touches one node per step; touching a    *)
(* node that is not there, or no longer there, is a violation.                 *)
EXTENDS TreeSpec, TLC, Json
CONSTANTS MaxN, Emit,
          First        \* which extreme the anchor's right slot holds: TRUE the first node, FALSE the last
VARIABLES t, root,     \* the image: node i has key 2 i
          pc,          \* "idle", or what is running
          cur, seen, stack, freed, goal, ok
ivars == <<t, root, pc, cur, seen, stack, freed, goal, ok>>

(* --- all red-black trees with n nodes --- *)
Nil == <<>>
RECURSIVE Blk(_, _)
RECURSIVE Red(_, _)
Blk(n, h) == IF n = 0 THEN (IF h = 0 THEN {Nil} ELSE {})
             ELSE IF h = 0 THEN {}
             ELSE UNION {{<<1, x, y>> : x \in Blk(i, h - 1) \cup Red(i, h - 1), y \in Blk(n - 1 - i, h - 1) \cup Red(n - 1 - i, h - 1)} : i \in 0..(n - 1)}
Red(n, h) == IF n = 0 THEN {}
             ELSE UNION {{<<0, x, y>> : x \in Blk(i, h), y \in Blk(n - 1 - i, h)} : i \in 0..(n - 1)}
RECURSIVE Count(_)
Count(x) == IF x = Nil THEN 0 ELSE 1 + Count(x[2]) + Count(x[3])
\* number the nodes in order
RECURSIVE Flatten(_, _)
Flatten(x, off) ==
    IF x = Nil THEN <<>>
    ELSE LET nl == Count(x[2])
             me == off + nl + 1
             lr == IF x[2] = Nil THEN 0 ELSE off + Count(x[2][2]) + 1
             rr == IF x[3] = Nil THEN 0 ELSE me + Count(x[3][2]) + 1
         IN Flatten(x[2], off) \o <<[k |-> 2 * me, v |-> me, l |-> lr, r |-> rr, c |-> x[1]]>> \o Flatten(x[3], me)
RootOf(x) == IF x = Nil THEN 0 ELSE Count(x[2]) + 1
Trees(n) == UNION {Blk(n, h) : h \in 0..4}

(* --- pointers as the image has them; the anchor is node 0 --- *)
N == Len(t)
Lft(i) == t[i].l
Rgt(i) == IF i = 0 THEN (IF N = 0 THEN 0 ELSE IF First THEN 1 ELSE N) ELSE t[i].r
Par(i) == IF i = 0 THEN root ELSE IF i = root THEN 0 ELSE CHOOSE j \in 1..N : t[j].l = i \/ t[j].r = i
\* a null pointer is -1 where the anchor could be meant
RgtP(i) == IF i = 0 THEN Rgt(0) ELSE IF t[i].r = 0 THEN -1 ELSE t[i].r
RECURSIVE LeftMost(_)
LeftMost(i) == IF t[i].l = 0 THEN i ELSE LeftMost(t[i].l)
RECURSIVE Climb(_, _)
Climb(i, p) == IF i = RgtP(p) THEN Climb(p, Par(p)) ELSE <<i, p>>
Succ(i) == IF t[i].r # 0 THEN LeftMost(t[i].r)
           ELSE LET x == Climb(i, Par(i)) IN IF RgtP(x[1]) # x[2] THEN x[2] ELSE x[1]

Idle == pc' = "idle" /\ cur' = 0 /\ seen' = <<>> /\ stack' = <<>> /\ goal' = <<>>
MCInit == /\ e = <<>> /\ ord = 0 /\ t = <<>> /\ root = 0 /\ freed = {} /\ ok = TRUE
          /\ pc = "idle" /\ cur = 0 /\ seen = <<>> /\ stack = <<>> /\ goal = <<>>
          /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
Args(rt, q) == <<rt>> \o Flat([i \in 1..Len(q) |-> <<q[i].k, q[i].v, q[i].l, q[i].r, q[i].c>>])
Load(x) == /\ pc = "idle" /\ t = <<>>
           /\ LET q == Flatten(x, 0) IN
              /\ Build(RootOf(x), q, Args(RootOf(x), q)) /\ t' = q /\ root' = RootOf(x)
           /\ freed' = {} /\ UNCHANGED ok /\ Idle
\* a lookup walks down
Look(k) == /\ pc = "idle" /\ t # <<>>
           /\ Get(k) /\ pc' = "find" /\ cur' = root /\ goal' = last'.r
           /\ UNCHANGED <<t, root, seen, stack, freed, ok>>
Find == /\ pc = "find" /\ UNCHANGED <<tvs, t, root, freed>>
        /\ IF cur = 0 THEN ok' = (ok /\ goal = <<>>) /\ Idle
           ELSE IF Lt(last.a[1], t[cur].k) THEN cur' = t[cur].l /\ UNCHANGED <<pc, seen, stack, goal, ok>>
           ELSE IF ~Lt(t[cur].k, last.a[1]) THEN ok' = (ok /\ goal = <<t[cur].v>>) /\ Idle
           ELSE cur' = t[cur].r /\ UNCHANGED <<pc, seen, stack, goal, ok>>
\* an iteration follows successors until it reaches the anchor
Walk == /\ pc = "idle" /\ t # <<>>
        /\ Iter(N, FALSE) /\ pc' = "iter" /\ cur' = 1 /\ goal' = last'.r
        /\ UNCHANGED <<t, root, seen, stack, freed, ok>>
Step == /\ pc = "iter" /\ UNCHANGED <<tvs, t, root, freed>>
        /\ IF cur = 0 THEN ok' = (ok /\ seen = goal) /\ Idle
           ELSE /\ Len(seen) <= 2 * N        \* it does not go round
                /\ seen' = seen \o <<t[cur].k, t[cur].v>> /\ cur' = Succ(cur)
                /\ UNCHANGED <<pc, stack, goal, ok>>
\* releasing: left, right, then the node itself
Wipe == /\ pc = "idle" /\ t # <<>> /\ Clear
        /\ pc' = "free" /\ stack' = <<<<root, 0>>>>
        /\ UNCHANGED <<t, root, cur, seen, freed, goal, ok>>
Release ==
    /\ pc = "free" /\ UNCHANGED <<tvs, root, cur, seen, goal>>
    /\ IF stack = <<>>
       THEN /\ ok' = (ok /\ freed = 1..N) /\ pc' = "idle" /\ t' = <<>> /\ UNCHANGED <<stack, freed>>
       ELSE LET x == stack[Len(stack)]
                rest == SubSeq(stack, 1, Len(stack) - 1)
                push(j, s) == rest \o <<<<x[1], s>>>> \o (IF j = 0 THEN <<>> ELSE <<<<j, 0>>>>)
            IN /\ ok' = (ok /\ x[1] \notin freed)          \* never touched after it is freed
               /\ UNCHANGED <<pc, t>>
               /\ CASE x[2] = 0 -> stack' = push(t[x[1]].l, 1) /\ UNCHANGED freed
                    [] x[2] = 1 -> stack' = push(t[x[1]].r, 2) /\ UNCHANGED freed
                    [] OTHER -> stack' = rest /\ freed' = freed \cup {x[1]}
MNext == \/ \E n \in 0..MaxN : \E x \in Trees(n) : Load(x)
         \/ \E k \in 1..(2 * N + 1) : Look(k)
         \/ Walk \/ Find \/ Step \/ Wipe \/ Release
MSpec == MCInit /\ [][MNext]_<<tvs, ivars>>
Right == ok
\* every step of a run can be taken: the machine never gets stuck
Moves == pc = "iter" => Len(seen) <= 2 * N
Depth == pc = "free" => Len(stack) <= 2 * 4 + 1
Shape == <<t, root, pc, cur, seen, stack, freed, goal, ok, e, IF pc = "find" THEN last.a ELSE <<>>>>
EmitEdge == (Emit /\ last'.op = "build" /\ last.op # "build") => PrintT(ToJson(<<<<0>>, "build", last'.a, <<1>>>>))
=============================================================================
