-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Two's complement 64-bit integers.  TLC's own integers have 32 bits, so  *)
(* a word is a sequence of four 16-bit limbs, least significant first.     *)
(* The operators wrap around exactly as int64_t does on the platforms the  *)
(* assembler supports.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

W0 == <<0, 0, 0, 0>>
W1 == <<1, 0, 0, 0>>
WBool(b) == IF b THEN W1 ELSE W0

WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 65536)
      s3 == a[3] + b[3] + (s2 \div 65536)
      s4 == a[4] + b[4] + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>

WNeg(a) == WAdd(WNot(a), W1)
WSub(a, b) == WAdd(a, WNeg(b))

\* From an integer of TLC's.
WOfNat(n) == <<n % 65536, n \div 65536, 0, 0>>
WOfInt(n) == IF n >= 0 THEN WOfNat(n) ELSE WNeg(WOfNat(0 - n))

WIsNeg(a) == a[4] >= 32768

\* Is the value within -2^30 .. 2^30-1, i.e. safe to use as an integer of TLC's?
WSmall(a) == \/ a[4] = 0 /\ a[3] = 0 /\ a[2] < 16384
             \/ a[4] = 65535 /\ a[3] = 65535 /\ a[2] >= 49152
WInt(a) == IF WIsNeg(a) THEN (a[2] - 65536) * 65536 + a[1]
                        ELSE a[2] * 65536 + a[1]

\* 16 by 16 bits: <<low 16 bits, high 16 bits>>
Mul16(x, y) ==
  LET p0 == x * (y % 256)
      p1 == x * (y \div 256)
      t  == p0 + (p1 % 256) * 256
  IN <<t % 65536, t \div 65536 + p1 \div 256>>

WMul(a, b) ==
  IF a[2] = 0 /\ a[3] = 0 /\ a[4] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 0
  THEN LET m == Mul16(a[1], b[1]) IN <<m[1], m[2], 0, 0>>
  ELSE
  LET m11 == Mul16(a[1], b[1])  m12 == Mul16(a[1], b[2])
      m13 == Mul16(a[1], b[3])  m14 == Mul16(a[1], b[4])
      m21 == Mul16(a[2], b[1])  m22 == Mul16(a[2], b[2])
      m23 == Mul16(a[2], b[3])
      m31 == Mul16(a[3], b[1])  m32 == Mul16(a[3], b[2])
      m41 == Mul16(a[4], b[1])
      s1 == m11[1]
      s2 == m11[2] + m12[1] + m21[1]
      s3 == m12[2] + m21[2] + m13[1] + m22[1] + m31[1] + (s2 \div 65536)
      s4 == m13[2] + m22[2] + m31[2] + m14[1] + m23[1] + m32[1] + m41[1]
            + (s3 \div 65536)
  IN <<s1, s2 % 65536, s3 % 65536, s4 % 65536>>

WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

\* Signed comparison
WLt(a, b) ==
  LET x == (a[4] + 32768) % 65536
      y == (b[4] + 32768) % 65536
  IN \/ x < y
     \/ x = y /\ a[3] < b[3]
     \/ x = y /\ a[3] = b[3] /\ a[2] < b[2]
     \/ x = y /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]

\* Shifts by 0 <= k <= 63
WLimb(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > 4 THEN fill ELSE a[i]

WShl(a, k) ==
  LET q == k \div 16
      r == k % 16
      L(i) == ((WLimb(a, i - q, 0) * 2^r) % 65536)
              + (IF r = 0 THEN 0 ELSE WLimb(a, i - q - 1, 0) \div 2^(16 - r))
  IN <<L(1), L(2), L(3), L(4)>>

WShr(a, k) ==
  LET q == k \div 16
      r == k % 16
      f == IF WIsNeg(a) THEN 65535 ELSE 0
      L(i) == (WLimb(a, i + q, f) \div 2^r)
              + (IF r = 0 THEN 0
                 ELSE (WLimb(a, i + q + 1, f) * 2^(16 - r)) % 65536)
  IN <<L(1), L(2), L(3), L(4)>>

\* Unsigned magnitude remainder, bit by bit (only used for large operands).
WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a
WBit(a, k) == (a[(k \div 16) + 1] \div 2^(k % 16)) % 2
WULt(a, b) == IF WIsNeg(a) = WIsNeg(b) THEN WLt(a, b) ELSE WIsNeg(b)
RECURSIVE WURem(_, _, _, _)
WURem(a, b, k, r) ==
  IF k < 0 THEN r
  ELSE LET r2 == WAdd(WShl(r, 1), WOfNat(WBit(a, k)))
           r3 == IF WULt(r2, b) THEN r2 ELSE WSub(r2, b)
       IN WURem(a, b, k - 1, r3)

\* C remainder: sign of the dividend.  b # 0.
WRem(a, b) ==
  LET x == WAbs(a)
      y == WAbs(b)
      m == IF WSmall(x) /\ WSmall(y) THEN WOfNat(WInt(x) % WInt(y))
           ELSE WURem(x, y, 63, W0)
  IN IF WIsNeg(a) THEN WNeg(m) ELSE m

\* As stored in memory, most significant byte first
WBytes1(a) == <<a[1] % 256>>
WBytes2(a) == <<a[1] \div 256, a[1] % 256>>
WBytes4(a) == <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>

\* w * base + digit, for reading numbers
WMulAdd(w, base, d) == WAdd(WMul(w, <<base, 0, 0, 0>>), <<d, 0, 0, 0>>)
==============================================================================
