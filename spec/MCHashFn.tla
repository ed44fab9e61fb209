------------------------------ MODULE MCHashFn ------------------------------
(* The hashing machine: a running value fed byte by byte, next to schoolbook   *)
(* arithmetic on single bytes; and published values.                           *)
EXTENDS HashFn, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES q, h, d            \* bytes so far, running value, the same as four base-256 digits
hvars == <<q, h, d>>
P == <<147, 1, 0, 1>>        \* 16777619 in base 256
\* schoolbook product modulo 2^32
Col(k) == IF k = 1 THEN d[1] * P[1]
          ELSE IF k = 2 THEN d[1] * P[2] + d[2] * P[1]
          ELSE IF k = 3 THEN d[1] * P[3] + d[2] * P[2] + d[3] * P[1]
          ELSE d[1] * P[4] + d[2] * P[3] + d[3] * P[2] + d[4] * P[1]
C1 == Col(1)
C2 == Col(2) + (C1 \div 256)
C3 == Col(3) + (C2 \div 256)
C4 == Col(4) + (C3 \div 256)
Init == q = <<>> /\ h = Basis /\ d = <<197, 157, 28, 129>>
Byte(b) == /\ Len(q) < MaxLen /\ q' = Append(q, b) /\ h' = Feed(h, b)
           /\ d' = <<(C1 % 256) ^^ b, C2 % 256, C3 % 256, C4 % 256>>
Next == \E b \in Alphabet : Byte(b)
Spec == Init /\ [][Next]_hvars
Same == h = <<d[1] + 256 * d[2], d[3] + 256 * d[4]>>
Function == TextHash(q) = <<h[1], h[2], 0, 0>>
\* values published with EASTL and in FNV's test suite
Published ==
    /\ TextHash(<<>>) = <<40389, 33052, 0, 0>>
    /\ TextHash(<<97>>) = <<23934, 1292, 0, 0>>                                 \* "a": 0x050c5d7e
    /\ TextHash(<<84, 101, 115, 116>>) = <<556965705 % W, 556965705 \div W, 0, 0>>
\* conversions
Conversions ==
    /\ IntHash(8, TRUE, <<255>>) = <<65535, 65535, 65535, 65535>>
    /\ IntHash(8, FALSE, <<255>>) = <<255, 0, 0, 0>>
    /\ IntHash(32, TRUE, <<0, 32768>>) = <<0, 32768, 65535, 65535>>
    /\ FloatHash(8, 23, <<0, 16256>>) = <<1, 0, 0, 0>>            \* 1.0f
    /\ FloatHash(8, 23, <<0, 16320>>) = <<1, 0, 0, 0>>            \* 1.5f
    /\ FloatHash(8, 23, <<0, 24320>>) = <<0, 0, 0, 32768>>        \* 2^63
    /\ FloatHash(11, 52, <<0, 0, 0, 16368>>) = <<1, 0, 0, 0>>     \* 1.0
    /\ FloatHash(11, 52, <<0, 0, 0, 16455>>) = <<46, 0, 0, 0>>    \* 46.0
    /\ FSmall(8, 23, <<0, 32768>>) /\ ~FFits(8, 23, <<0, 49024>>) \* -0.0f; -1.0f
    /\ Bucket(<<5, 0, 0, 1>>, 7) = (5 + 1) % 7                    \* 2^48 = 1 modulo 7
Checked == (q = <<>>) => (Published /\ Conversions)
=============================================================================
