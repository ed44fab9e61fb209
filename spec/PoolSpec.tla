------------------------------ MODULE PoolSpec ------------------------------
(* A pool of fixed-size nodes over a region of memory, with or without an      *)
(* overflow allocator.  Blocks are named by their offset from the start of the *)
(* region; which free block is handed out is left open.                        *)
EXTENDS SeqOps
VARIABLES
    geo,     \* [size, align, off, len, ov]: node size and alignment; address of the region (modulo the largest
             \* alignment) and its length; whether there is an overflow allocator
    out,     \* blocks in use, oldest first: <<1, offset>> from the pool, <<0, offset>> from the overflow allocator
    calls,   \* calls of the overflow allocator by the last operation: <<0 allocate / 1 free, size, align, offset>>
    last
pvars == <<geo, out, calls, last>>

Slack(g) == (g.align - (g.off % g.align)) % g.align
Fit(g) == IF g.len < Slack(g) THEN 0 ELSE (g.len - Slack(g)) \div g.size      \* blocks that fit
Mine(o) == {i \in 1..Len(o) : o[i][1] = 1}
InPool == Cardinality(Mine(out))
CanAllocate == InPool < Fit(geo)
Apart(x, y) == x + geo.size <= y \/ y + geo.size <= x
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
PInit(g) == geo = g /\ out = <<>> /\ calls = <<>> /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>]
Build(k) == out' = <<>> /\ calls' = <<>> /\ UNCHANGED geo /\ Did("build", <<k>>, <<>>)
\* a pool built by C++ and used before: the blocks x are in use, every other one can be had
Adopt(a, x) == out' = [i \in 1..Len(x) |-> <<1, x[i]>>] /\ calls' = <<>> /\ UNCHANGED geo /\ Did("adopt", a, x)
\* is x a place where the pool could have put a block?
Place(x) == /\ x >= 0 /\ x + geo.size <= geo.len /\ (geo.off + x) % geo.align = 0
            /\ \A i \in Mine(out) : Apart(x, out[i][2])
AllocPool(x) == /\ CanAllocate /\ Place(x)
                /\ out' = Append(out, <<1, x>>) /\ calls' = <<>> /\ UNCHANGED geo /\ Did("alloc", <<>>, <<0, x>>)
AllocOver(x) == /\ ~CanAllocate /\ geo.ov = 1
                /\ out' = Append(out, <<0, x>>) /\ calls' = << <<0, geo.size, geo.align, x>> >>
                /\ UNCHANGED geo /\ Did("alloc", <<>>, <<0, x>>)
AllocNone == /\ ~CanAllocate /\ geo.ov = 0 /\ UNCHANGED <<geo, out>> /\ calls' = <<>> /\ Did("alloc", <<>>, <<>>)
Free(i) == LET b == out[i + 1] IN
           /\ out' = RemoveAtIdx(out, i) /\ UNCHANGED geo
           /\ calls' = IF b[1] = 1 THEN <<>> ELSE << <<1, geo.size, geo.align, b[2]>> >>
           /\ Did("free", <<i>>, <<>>)

Disjoint == \A i, j \in Mine(out) : i # j => Apart(out[i][2], out[j][2])
Capacity == InPool <= Fit(geo)
=============================================================================
