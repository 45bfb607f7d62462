-------------------------------- MODULE W64 --------------------------------
(***************************************************************************)
(* 64-bit words as four 16-bit limbs, most significant first (TLC integers *)
(* are 32 bits wide).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Str

W0 == <<0, 0, 0, 0>>
WOnes == <<65535, 65535, 65535, 65535>>
WLt(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
WLe(a, b) == a = b \/ WLt(a, b)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
WBits(a) ==
  IF a[1] # 0 THEN 48 + Bits(a[1]) ELSE IF a[2] # 0 THEN 32 + Bits(a[2])
  ELSE IF a[3] # 0 THEN 16 + Bits(a[3]) ELSE Bits(a[4])
\* The value of a small word (below 2^31), or -1
WSmall(a) == IF a[1] = 0 /\ a[2] = 0 /\ a[3] < 32768 THEN a[3] * 65536 + a[4] ELSE -1
\* Low 32 bits as a natural number, or -1 when outside of the modelled range
WLow32(a) == IF a[3] < 32768 THEN a[3] * 65536 + a[4] ELSE -1
WOf(n) == <<0, 0, n \div 65536, n % 65536>>
WNeg(a) == a[1] >= 32768
WAdd(a, b) ==
  LET s4 == a[4] + b[4]
      s3 == a[3] + b[3] + s4 \div 65536
      s2 == a[2] + b[2] + s3 \div 65536
      s1 == a[1] + b[1] + s2 \div 65536
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WMinus(a) == WAdd(WNot(a), <<0, 0, 0, 1>>)
\* a * m + d without overflow, or <<>> on overflow of 64 bits (m <= 16)
WMulAdd(a, m, d) ==
  LET s4 == a[4] * m + d
      s3 == a[3] * m + s4 \div 65536
      s2 == a[2] * m + s3 \div 65536
      s1 == a[1] * m + s2 \div 65536
  IN IF s1 >= 65536 THEN <<>> ELSE <<s1, s2 % 65536, s3 % 65536, s4 % 65536>>
HexVal == [c \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
            IF c \in Digits THEN DigitVal[c]
            ELSE 9 + (CHOOSE i \in 1..6 : LowerSeq[i] = LowerOf[c])]
\* Unsigned text in a base -> word, or <<>> when malformed or too wide
WParseU(s, base) ==
  IF Len(s) = 0 THEN <<>>
  ELSE FoldLeft(LAMBDA a, c :
         IF a = <<>> THEN <<>>
         ELSE IF c \notin DOMAIN HexVal THEN <<>>
         ELSE IF HexVal[c] >= base THEN <<>>
         ELSE WMulAdd(a, base, HexVal[c]), W0, Explode(s))
\* Signed text as accepted by i64 parsing: optional sign, digits, in range
WParseI(s, base) ==
  LET neg == StartsWith(s, "-")
      body == IF neg \/ StartsWith(s, "+") THEN Drop(s, 1) ELSE s
      u == WParseU(body, base)
  IN IF u = <<>> THEN <<>>
     ELSE IF neg THEN (IF WLe(u, <<32768, 0, 0, 0>>) THEN WMinus(u) ELSE <<>>)
     ELSE IF WNeg(u) THEN <<>> ELSE u
HexSeq == DigitSeq \o <<"A","B","C","D","E","F">>
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexSeq[n + 1] ELSE HexOf(n \div 16) \o HexSeq[(n % 16) + 1]
Pad(s, n) == Concat([i \in 1..(IF Len(s) < n THEN n - Len(s) ELSE 0) |-> "0"]) \o s
\* Upper case hexadecimal text without leading zeros
WHex(a) ==
  IF a[1] # 0 THEN HexOf(a[1]) \o Pad(HexOf(a[2]), 4) \o Pad(HexOf(a[3]), 4) \o Pad(HexOf(a[4]), 4)
  ELSE IF a[2] # 0 THEN HexOf(a[2]) \o Pad(HexOf(a[3]), 4) \o Pad(HexOf(a[4]), 4)
  ELSE IF a[3] # 0 THEN HexOf(a[3]) \o Pad(HexOf(a[4]), 4)
  ELSE HexOf(a[4])
\* Unsigned decimal text
RECURSIVE WDec(_)
WDec(a) ==
  LET q1 == a[1] \div 10  r1 == a[1] % 10
      t2 == r1 * 65536 + a[2]  q2 == t2 \div 10  r2 == t2 % 10
      t3 == r2 * 65536 + a[3]  q3 == t3 \div 10  r3 == t3 % 10
      t4 == r3 * 65536 + a[4]  q4 == t4 \div 10  r4 == t4 % 10
      q == <<q1, q2, q3, q4>>
  IN (IF q = W0 THEN "" ELSE WDec(q)) \o DigitSeq[r4 + 1]
\* bit operations by value of single bits (0..63)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
WBit(a, i) == (a[4 - (i \div 16)] \div Pow2(i % 16)) % 2
=============================================================================
