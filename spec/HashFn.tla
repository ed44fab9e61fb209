------------------------------- MODULE HashFn -------------------------------
(* EASTL's default hashes.  TLC's integers have 32 bits, so machine words are  *)
(* sequences of 16-bit limbs, least significant first.                         *)
EXTENDS Integers, Sequences, Bitwise

W == 65536
RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
Bit(q, i) == IF i < 0 \/ i \div 16 + 1 > Len(q) THEN 0 ELSE (q[(i \div 16) + 1] \div Pow2(i % 16)) % 2
RECURSIVE Sum(_, _, _)
Sum(f, lo, n) == IF n = 0 THEN 0 ELSE f[lo + n - 1] * Pow2(n - 1) + Sum(f, lo, n - 1)
\* four limbs from 64 bits
Word(f) == [k \in 1..4 |-> Sum(f, 16 * (k - 1), 16)]

(* --- integers: converted to size_t, keeping the sign --- *)
IntHash(w, signed, q) == Word([i \in 0..63 |-> IF i < w THEN Bit(q, i) ELSE IF signed THEN Bit(q, w - 1) ELSE 0])

(* --- floats: the value, cut to an integer --- *)
\* eb exponent bits, mb mantissa bits
Field(q, lo, n) == Sum([i \in lo..(lo + n - 1) |-> Bit(q, i)], lo, n)
FExp(eb, mb, q) == Field(q, mb, eb)
FSign(eb, mb, q) == Bit(q, eb + mb)
Bias(eb) == Pow2(eb - 1) - 1
FSmall(eb, mb, q) == FExp(eb, mb, q) < Bias(eb)                   \* below one in magnitude: zero
FFits(eb, mb, q) == FSmall(eb, mb, q) \/ (FSign(eb, mb, q) = 0 /\ FExp(eb, mb, q) < Bias(eb) + 64)
FloatHash(eb, mb, q) ==
    IF FSmall(eb, mb, q) THEN <<0, 0, 0, 0>>
    ELSE LET up == FExp(eb, mb, q) - Bias(eb) - mb                \* the value is mantissa * 2^up
         IN Word([i \in 0..63 |-> LET j == i - up IN IF j = mb THEN 1 ELSE IF j > mb THEN 0 ELSE Bit(q, j)])

(* --- text: 32-bit FNV-1, one byte at a time --- *)
Basis == <<40389, 33052>>                                         \* 2166136261
Mul(h) == LET lo == h[1] * 403                                    \* prime 16777619 = 256 * 65536 + 403
          IN <<lo % W, (h[2] * 403 + h[1] * 256 + (lo \div W)) % W>>
Feed(h, b) == LET m == Mul(h) IN <<m[1] ^^ b, m[2]>>
RECURSIVE Fnv(_, _)
Fnv(h, q) == IF q = <<>> THEN h ELSE Fnv(Feed(h, q[1]), Tail(q))
TextHash(q) == LET h == Fnv(Basis, q) IN <<h[1], h[2], 0, 0>>

(* --- the bucket of a hash among bc buckets --- *)
Bucket(h, bc) == LET r4 == h[4] % bc
                     r3 == (r4 * W + h[3]) % bc
                     r2 == (r3 * W + h[2]) % bc
                 IN (r2 * W + h[1]) % bc
=============================================================================
