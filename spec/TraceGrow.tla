------------------------------ MODULE TraceGrow -----------------------------
(* Bucket counts of large tables, and of tables that C++ built with load and    *)
(* growth factors of its own: only the number of entries matters.               *)
EXTENDS PrimePolicy, TraceBase
VARIABLES n, bc, gr,
          f,      \* the load factor ln/ld and the growth factor gn/gd
          nr      \* entries at which the load is looked at again
tvars == <<n, bc, gr, f, nr, tid, l>>
Default == [ln |-> 1, ld |-> 1, gn |-> 2, gd |-> 1]
\* growing to end entries: <<buckets, look again at, growths as <<entries, buckets>> >>
RECURSIVE Grown(_, _, _, _)
Grown(b, c, r, end) ==
    IF c >= end THEN <<b, r, <<>> >>
    ELSE IF c < r THEN Grown(b, IF end < r THEN end ELSE r, r, end)     \* nothing happens until then
    ELSE LET x == NextOf(b, c, r, f)
             g == Grown(x[1], c + 1, x[2], end)
         IN IF x[1] = b THEN g ELSE <<g[1], g[2], << <<c + 1, x[1]>> >> \o g[3]>>
TInit == TraceStart /\ n = 0 /\ bc = 1 /\ gr = <<>> /\ f = Default /\ nr = 0
Fill(k) == LET g == Grown(bc, n, nr, n + k) IN
           n' = n + k /\ bc' = g[1] /\ nr' = g[2] /\ gr' = g[3] /\ UNCHANGED f
Act == \/ (Is("fill") \/ Is("entfill")) /\ Fill(E.a[1])
       \/ Is("drain") /\ n' = n - E.a[1] /\ gr' = <<>> /\ UNCHANGED <<bc, f, nr>>
       \/ Is("clear") /\ n' = 0 /\ gr' = <<>> /\ UNCHANGED <<bc, f, nr>>
       \/ Is("adopt") /\ n' = 0 /\ gr' = <<>> /\ bc' = E.a[1] /\ nr' = E.a[6]
                      /\ f' = [ln |-> E.a[2], ld |-> E.a[3], gn |-> E.a[4], gd |-> E.a[5]]
       \/ Is("probe") /\ gr' = <<>> /\ UNCHANGED <<n, bc, f, nr>>
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
Judge(P) == Started => P
Growth == Judge(O.gr = gr /\ O.bc = bc)
\* a table made to grow to at least this many buckets asks for memory for the least prime there is
Asked == Judge(O.op = "probe" => O.r = NextPrime32(O.a[1], O.a[2]))
Count == Judge(O.n = n /\ O.ec = n /\ O.cnt = n)
Marker == Judge(O.sn = 1)
Entries == Judge(O.bad = 0 /\ O.p = 0)
=============================================================================
