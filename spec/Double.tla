------------------------------- MODULE Double -------------------------------
(***************************************************************************)
(* Floating point numbers: IEEE 754 binary64, rounded to nearest, ties to  *)
(* even.                                                                   *)
(*                                                                         *)
(* A number is <<s, e, m>>: (-1)^s * m * 2^e, where m is a word (see       *)
(* Words) from 2^52 to 2^53-1, or zero (then e = 0).  Numbers of           *)
(* magnitudes of about 2^900 and more or 2^-900 and less, where subnormal  *)
(* numbers and infinity are not far, are beyond this specification         *)
(* (DFar).                                                                 *)
(*                                                                         *)
(* Natural numbers too big for TLC are also sequences of 16-bit limbs of   *)
(* any length, least significant first.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words

DZero(s) == <<s, 0, W0>>
DIsZero(d) == d[3] = W0
DFar(d) == ~DIsZero(d) /\ (d[2] > 850 \/ d[2] < -950)

(***************************************************************************)
(* Naturals of any size                                                    *)
(***************************************************************************)
NLimb(a, i) == IF i < 1 \/ i > Len(a) THEN 0 ELSE a[i]

RECURSIVE BitLen16(_), NBits(_, _)
BitLen16(x) == IF x = 0 THEN 0 ELSE 1 + BitLen16(x \div 2)
\* Number of bits of the limbs 1..i
NBits(a, i) == IF i = 0 THEN 0
               ELSE IF a[i] # 0 THEN 16 * (i - 1) + BitLen16(a[i]) ELSE NBits(a, i - 1)
NBit(a, k) == (NLimb(a, (k \div 16) + 1) \div 2^(k % 16)) % 2

\* Shifted by k bits to the left; n limbs
NShl(a, k, n) ==
  LET q == k \div 16
      r == k % 16
  IN TLCEval([i \in 1..n |-> ((NLimb(a, i - q) * 2^r) % 65536)
                     + (IF r = 0 THEN 0 ELSE NLimb(a, i - q - 1) \div 2^(16 - r))])
\* Shifted by k bits to the right; the lowest four limbs of the result
NShr(a, k) ==
  LET q == k \div 16
      r == k % 16
      L(i) == (NLimb(a, i + q) \div 2^r)
              + (IF r = 0 THEN 0 ELSE (NLimb(a, i + q + 1) * 2^(16 - r)) % 65536)
  IN <<L(1), L(2), L(3), L(4)>>

RECURSIVE NAddC(_, _, _, _), NSubB(_, _, _, _)
\* a + b or a - b (a >= b), limbs i.. of as many as a has, with carry or borrow
NAddC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + NLimb(b, i) + c
       IN <<s % 65536>> \o NAddC(a, b, i + 1, s \div 65536)
NSubB(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - NLimb(b, i) - c
       IN IF s >= 0 THEN <<s>> \o NSubB(a, b, i + 1, 0)
          ELSE <<s + 65536>> \o NSubB(a, b, i + 1, 1)

RECURSIVE NLt(_, _, _)
\* a < b, looking at limbs i, i-1, ...
NLt(a, b, i) == IF i = 0 THEN FALSE
                ELSE IF NLimb(a, i) # NLimb(b, i) THEN NLimb(a, i) < NLimb(b, i)
                ELSE NLt(a, b, i - 1)

\* Product of two words: eight limbs
RECURSIVE NMulRow(_, _, _, _, _), NMulAll(_, _, _, _)
NMulRow(acc, a, y, i, j) ==
  \* acc + a * y * 65536^(j - 1), limb i of a and following
  IF i > 4 THEN acc
  ELSE LET p == Mul16(a[i], y)
           sh == NShl(<<p[1], p[2]>>, 16 * (i + j - 2), 8)
       IN NMulRow(NAddC(acc, sh, 1, 0), a, y, i + 1, j)
NMulAll(acc, a, b, j) ==
  IF j > 4 THEN acc ELSE NMulAll(IF b[j] = 0 THEN acc ELSE NMulRow(acc, a, b[j], 1, j), a, b, j + 1)
NMul(a, b) == NMulAll(<<0, 0, 0, 0, 0, 0, 0, 0>>, a, b, 1)

RECURSIVE NAnyBit(_, _)
\* Is any of the bits below k set?
NAnyBit(a, k) == \/ \E i \in 1..(k \div 16) : NLimb(a, i) # 0
                 \/ NLimb(a, (k \div 16) + 1) % 2^(k % 16) # 0

(***************************************************************************)
(* The number nearest to n * 2^e; sticky: and something smaller than 2^e.  *)
(***************************************************************************)
DRound(s, n, e, sticky) ==
  LET l == NBits(n, Len(n))
      drop == l - 53
      q == NShr(n, drop)
      half == NBit(n, drop - 1) = 1
      rest == sticky \/ NAnyBit(n, drop - 1)
      up == half /\ (rest \/ q[1] % 2 = 1)
      q2 == IF up THEN WAdd(q, W1) ELSE q
  IN IF l = 0 THEN DZero(s)
     ELSE IF drop <= 0
     THEN LET w == NShl(n, -drop, 4) IN <<s, e + drop, <<w[1], w[2], w[3], w[4]>> >>
     ELSE IF q2 = <<0, 0, 0, 32>> THEN <<s, e + drop + 1, <<0, 0, 0, 16>> >>
     ELSE <<s, e + drop, q2>>

\* Of an integer
DOfWord(w) == DRound(IF WIsNeg(w) THEN 1 ELSE 0, WAbs(w), 0, FALSE)

DNeg(d) == <<1 - d[1], d[2], d[3]>>

DMul(x, y) ==
  LET s == (x[1] + y[1]) % 2
  IN IF DIsZero(x) \/ DIsZero(y) THEN DZero(s)
     ELSE DRound(s, NMul(x[3], y[3]), x[2] + y[2], FALSE)

\* One more bit of a quotient by d: acc is <<quotient, remainder>>
DivStep(d, acc, bit) ==
  LET r2 == WAdd(WShl(acc[2], 1), IF bit = 1 THEN W1 ELSE W0)
  IN IF WLt(r2, d) THEN <<WShl(acc[1], 1), r2>>
     ELSE <<WAdd(WShl(acc[1], 1), W1), WSub(r2, d)>>

\* n / d * 2^e, of words 0 < n < 2^63, 0 < d < 2^60
DQuot(s, n, d, e) ==
  LET ln == NBits(n, 4)
      ld == NBits(d, 4)
      z == IF 56 + ld - ln > 0 THEN 56 + ld - ln ELSE 0
      bits == TLCEval([i \in 1..(ln + z) |-> IF i <= ln THEN WBit(n, ln - i) ELSE 0])
      r == FoldLeft(LAMBDA acc, bit : DivStep(d, acc, bit), <<W0, W0>>, bits)
  IN DRound(s, r[1], e - z, r[2] # W0)

DDiv(x, y) ==
  LET s == (x[1] + y[1]) % 2
  IN IF DIsZero(x) THEN DZero(s) ELSE DQuot(s, x[3], y[3], x[2] - y[2])

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN W1 ELSE WMul(Pow10(k - 1), <<10, 0, 0, 0>>)

\* The decimal fraction w / 10^k, w >= 0, k <= 17
DDecimal(w, k) == IF w = W0 THEN DZero(0)
                  ELSE IF k = 0 THEN DOfWord(w) ELSE DQuot(0, w, Pow10(k), 0)

DMagLt(x, y) ==
  IF DIsZero(y) THEN FALSE
  ELSE IF DIsZero(x) THEN TRUE
  ELSE x[2] < y[2] \/ (x[2] = y[2] /\ WLt(x[3], y[3]))

DEq(x, y) == (DIsZero(x) /\ DIsZero(y)) \/ x = y
DLt(x, y) ==
  IF DIsZero(x) /\ DIsZero(y) THEN FALSE
  ELSE IF x[1] # y[1] THEN x[1] = 1
  ELSE IF x[1] = 0 THEN DMagLt(x, y) ELSE DMagLt(y, x)

DAdd(x, y) ==
  IF DIsZero(x) /\ DIsZero(y) THEN DZero(IF x[1] = 1 /\ y[1] = 1 THEN 1 ELSE 0)
  ELSE IF DIsZero(x) THEN y
  ELSE IF DIsZero(y) THEN x
  ELSE
  LET big == IF DMagLt(x, y) THEN y ELSE x
      sml == IF DMagLt(x, y) THEN x ELSE y
      d == big[2] - sml[2]
      \* what is far below only says that there is something
      sh == IF d > 64 THEN 64 ELSE d
      a == NShl(big[3], sh, 8)
      b == IF d > 64 THEN W1 ELSE sml[3]
      n == IF x[1] = y[1] THEN NAddC(a, b, 1, 0) ELSE NSubB(a, b, 1, 0)
  IN IF x[1] # y[1] /\ big[2] = sml[2] /\ big[3] = sml[3] THEN DZero(0)
     ELSE DRound(big[1], n, big[2] - sh, FALSE)

\* Towards zero.  ~DIntOk: undefined
DIntOk(d) == DIsZero(d) \/ d[2] <= 10
DInt(d) ==
  LET w == IF DIsZero(d) \/ d[2] < -63 THEN W0
           ELSE IF d[2] >= 0 THEN WShl(d[3], d[2]) ELSE WShr(d[3], -d[2])
  IN IF d[1] = 1 THEN WNeg(w) ELSE w
==============================================================================
