----------------------------- MODULE TraceHashFn ----------------------------
(* Conformance of recorded hash values with HashFn.                            *)
EXTENDS HashFn, TraceBase
VARIABLE want            \* what the operation has to give: None if unspecified
tvars == <<want, tid, l>>
a == E.a
TInit == TraceStart /\ want = <<>>
Width(t) == CASE t \in {0, 1} -> 8 [] t \in {2, 3} -> 16 [] t \in {4, 5} -> 32 [] t = 10 -> 1 [] OTHER -> 64
Signed(t) == t \in {1, 3, 5, 7, 9}
Act == \/ Is("int") /\ want' = IntHash(Width(a[1]), Signed(a[1]), Tail(a))
       \/ Is("f32") /\ want' = IF FFits(8, 23, a) THEN FloatHash(8, 23, a) ELSE <<>>
       \/ Is("f64") /\ want' = IF FFits(11, 52, a) THEN FloatHash(11, 52, a) ELSE <<>>
       \/ Is("txt") /\ want' = TextHash(Tail(a))
       \/ Is("cstr") /\ want' = TextHash(a)
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
Judge(P) == Started => P
Value == Judge(O.p = 0 /\ (want # <<>> => O.r = want))
\* outside the range of the conversion C++ leaves the value open, but there is one
Total == Judge(Len(O.r) = 4)
\* a table puts the key where C++ code will look for it
Place == Judge(O.hb # <<>> => O.hb[1] = Bucket(O.r, O.hb[2]))
=============================================================================
