---------------------------- MODULE PrimePolicy -----------------------------
(* EASTL's prime rehash policy: load factor 1, growth factor 2, kPrimeNumbers. *)
EXTENDS Integers, Sequences
Primes == <<
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67,
    71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179,
    193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439,
    467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193,
    1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971,
    3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517,
    8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749,
    19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873,
    42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229,
    92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933,
    187091, 202409, 218971, 236897, 256279, 277261, 299951, 324503, 351061,
    379787, 410857, 444487, 480881, 520241, 562841, 608903, 658753, 712697,
    771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629,
    1447153, 1565659, 1693859, 1832561, 1982627, 2144977, 2320627, 2510653,
    2716249, 2938679, 3179303, 3439651, 3721303, 4026031, 4355707, 4712381,
    5098259, 5515729, 5967347, 6456007, 6984629, 7556579, 8175383, 8844859,
    9569143, 10352717, 11200489, 12117689, 13109983, 14183539, 15345007,
    16601593, 17961079, 19431899, 21023161, 22744717, 24607243, 26622317,
    28802401, 31160981, 33712729, 36473443, 39460231, 42691603, 46187573,
    49969847, 54061849, 58488943, 63278561, 68460391, 74066549, 80131819,
    86693767, 93793069, 101473717, 109783337, 118773397, 128499677,
    139022417, 150406843, 162723577, 176048909, 190465427, 206062531,
    222936881, 241193053, 260944219, 282312799, 305431229, 330442829,
    357502601, 386778277, 418451333, 452718089, 489790921, 529899637,
    573292817, 620239453, 671030513, 725980837, 785430967, 849749479,
    919334987, 994618837
>>
LOCAL Max2(x, y) == IF x >= y THEN x ELSE y
RECURSIVE Lower(_, _, _)
\* least index in lo..hi whose prime is >= x (hi is known to qualify)
Lower(lo, hi, x) == IF lo = hi THEN lo
                    ELSE LET mid == (lo + hi) \div 2 IN
                         IF Primes[mid] >= x THEN Lower(lo, mid, x) ELSE Lower(mid + 1, hi, x)
NextPrime(x) == Primes[Lower(1, Len(Primes), x)]
\* the bucket count of a table with bc buckets and n entries that is about to hold n + 1
NextBc(bc, n) == LET b == IF bc = 1 THEN 0 ELSE bc IN
                 IF n + 1 > b THEN NextPrime(Max2(n + 1, 2 * b)) ELSE bc
\* the whole of EASTL's table up to 2^32, as <<high, low>> halves, and its least prime that is >= <<h, l>>
Large == <<
    <<16419, 32033>>, <<17764, 4713>>, <<19218, 49951>>, <<20792, 37749>>, <<22495, 17623>>, <<24337, 25809>>,
    <<26330, 24237>>, <<28486, 36015>>, <<30819, 19523>>, <<33343, 4825>>, <<36073, 34089>>, <<39027, 36797>>,
    <<42223, 33271>>, <<45681, 11023>>, <<49421, 63825>>, <<53469, 7343>>, <<57847, 43851>>, <<62584, 51375>>,
    <<65535, 65531>>
>>
RECURSIVE FirstFrom(_, _, _)
FirstFrom(i, h, k) == IF Large[i][1] > h \/ (Large[i][1] = h /\ Large[i][2] >= k) THEN Large[i] ELSE FirstFrom(i + 1, h, k)
NextPrime32(h, k) == IF h < 15176 \/ (h = 15176 /\ k <= 44501)
                     THEN LET p == NextPrime(h * 65536 + k) IN <<p \div 65536, p % 65536>>
                     ELSE FirstFrom(1, h, k)
\* the same for any load factor ln/ld and growth factor gn/gd: <<buckets, entries at which to look again>>
Ceil(x, y) == (x + y - 1) \div y
NextOf(bc, n, nr, f) ==
    IF n + 1 <= nr THEN <<bc, nr>>
    ELSE LET b == IF bc = 1 THEN 0 ELSE bc IN
         IF (n + 1) * f.ld > b * f.ln
         THEN LET p == NextPrime(Max2(((n + 1) * f.ld) \div f.ln, (b * f.gn) \div f.gd))
              IN <<p, Ceil(p * f.ln, f.ld)>>
         ELSE <<bc, Ceil(b * f.ln, f.ld)>>
=============================================================================
