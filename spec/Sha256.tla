------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 of a window of bytes, on pairs of 16-bit halves (TLC integers   *)
(* have 31 bits).                                                          *)
(***************************************************************************)
EXTENDS Bytes, Bitwise, SequencesExt

W(h, l) == <<h, l>>
Add2(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div 65536)) % 65536, l % 65536>>
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Not2(x) == <<65535 - x[1], 65535 - x[2]>>
Shr2(x, n) == IF n < 16
                THEN <<x[1] \div (2^n), (x[2] \div (2^n)) + (x[1] % (2^n)) * (2^(16 - n))>>
                ELSE <<0, x[1] \div (2^(n - 16))>>
Rot2(x, n) == IF n < 16
                THEN <<(x[1] \div (2^n)) + (x[2] % (2^n)) * (2^(16 - n)),
                       (x[2] \div (2^n)) + (x[1] % (2^n)) * (2^(16 - n))>>
                ELSE LET m == n - 16
                     IN <<(x[2] \div (2^m)) + (x[1] % (2^m)) * (2^(16 - m)),
                          (x[1] \div (2^m)) + (x[2] % (2^m)) * (2^(16 - m))>>

KK == <<
 <<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,
 <<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,
 <<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
 <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,
 <<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,
 <<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
 <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,
 <<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>> >>
H0 == << <<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>> >>

PadByte(b, lo, n, blocks, i) ==          \* byte i (0-based) of the padded message
  IF i < n THEN At(b, lo + i)
  ELSE IF i = n THEN 128
  ELSE LET k == 64 * blocks - 1 - i IN   \* distance from the end: the bit length, big-endian
       IF k > 3 THEN 0
       ELSE ((n * 8) \div (256^k)) % 256

RECURSIVE Schedule(_, _)
Schedule(w, t) ==
  IF t = 65 THEN w
  ELSE LET s0 == LET x == w[t - 15] IN Xor2(Xor2(Rot2(x, 7), Rot2(x, 18)), Shr2(x, 3))
           s1 == LET x == w[t - 2] IN Xor2(Xor2(Rot2(x, 17), Rot2(x, 19)), Shr2(x, 10))
       IN  Schedule(Append(w, Add2(Add2(Add2(w[t - 16], s0), w[t - 7]), s1)), t + 1)

Round(v, kw) ==
  LET a == v[1] e == v[5]
      S1 == Xor2(Xor2(Rot2(e, 6), Rot2(e, 11)), Rot2(e, 25))
      ch == Xor2(And2(e, v[6]), And2(Not2(e), v[7]))
      t1 == Add2(Add2(Add2(v[8], S1), ch), kw)
      S0 == Xor2(Xor2(Rot2(a, 2), Rot2(a, 13)), Rot2(a, 22))
      mj == Xor2(Xor2(And2(a, v[2]), And2(a, v[3])), And2(v[2], v[3]))
      t2 == Add2(S0, mj)
  IN  <<Add2(t1, t2), a, v[2], v[3], Add2(v[4], t1), e, v[6], v[7]>>

Compress(h, w) ==
  LET v == FoldLeft(Round, h, AsSeq([t \in 1..64 |-> Add2(KK[t], w[t])]))
  IN  AsSeq([i \in 1..8 |-> Add2(h[i], v[i])])

ShaCps(b, lo, hi) ==
  LET n == Max2(0, hi - lo)
      blocks == (n + 8) \div 64 + 1
      word(j, t) == LET i == 64 * j + 4 * t IN
                    <<256 * PadByte(b, lo, n, blocks, i) + PadByte(b, lo, n, blocks, i + 1),
                      256 * PadByte(b, lo, n, blocks, i + 2) + PadByte(b, lo, n, blocks, i + 3)>>
      step(h, j) == Compress(h, Schedule(AsSeq([t \in 1..16 |-> word(j, t - 1)]), 17))
      h == FoldLeft(step, H0, AsSeq([j \in 1..blocks |-> j - 1]))
      x(i) == Byte2Lo(h[i][1] \div 256) \o Byte2Lo(h[i][1] % 256)
              \o Byte2Lo(h[i][2] \div 256) \o Byte2Lo(h[i][2] % 256)
  IN  x(1) \o x(2) \o x(3) \o x(4) \o x(5) \o x(6) \o x(7) \o x(8)
=============================================================================
