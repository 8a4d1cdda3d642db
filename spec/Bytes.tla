------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte-level vocabulary of the SCALE format: little-endian numbers kept   *)
(* as byte sequences (TLC integers are 32 bit), compact integers, UTF-8,   *)
(* chars, eras, fractions, bit sequences, decimal and hex printing.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* --- numbers 0..2^32-1 as <<hi, lo>> in base 65536 ----------------------
PairOfInt(n) == <<n \div 65536, n % 65536>>
PairOfBytes(b) == <<b[4] * 256 + b[3], b[2] * 256 + b[1]>>     \* 4 bytes LE
PairFits(p) == p[1] < 16384                                    \* below 2^30
PairInt(p) == p[1] * 65536 + p[2]
PairAdd(p, n) == LET lo == p[2] + (n % 65536)
                 IN  <<p[1] + (n \div 65536) + (lo \div 65536), lo % 65536>>
PairSub(p, n) == LET d == p[2] - (n % 65536)
                 IN  IF d >= 0 THEN <<p[1] - (n \div 65536), d>>
                     ELSE <<p[1] - (n \div 65536) - 1, d + 65536>>
\* does an object of length p (pair) starting at s fit below limit l ?
PairWithin(s, p, l) == PairFits(p) /\ s + PairInt(p) <= l

RECURSIVE IntBytes(_, _)
IntBytes(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o IntBytes(n \div 256, w - 1)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
PadTo(b, w) == b \o Zeros(w - Len(b))

\* --- compact integers ----------------------------------------------------
(* Canonical compact of width w bytes in D, starting after p bytes, below   *)
(* limit l. ok: val is w bytes LE, len the encoded length.                  *)
NoCompactHere == [ok |-> FALSE, val |-> <<>>, len |-> 0]
CompactAt(D, p, l, w) ==
  IF p >= l THEN NoCompactHere ELSE
  LET b0 == D[p + 1]
      m  == b0 % 4
  IN CASE m = 0 -> [ok |-> TRUE, val |-> IntBytes(b0 \div 4, w), len |-> 1]
       [] m = 1 ->
            IF p + 2 > l THEN NoCompactHere ELSE
            LET x == (b0 + 256 * D[p + 2]) \div 4
            IN IF x > 63 /\ (w > 1 \/ x < 256)
               THEN [ok |-> TRUE, val |-> IntBytes(x, w), len |-> 2] ELSE NoCompactHere
       [] m = 2 ->
            IF p + 4 > l \/ w = 1 THEN NoCompactHere ELSE
            LET x == (b0 \div 4) + 64 * D[p + 2] + 16384 * D[p + 3] + 4194304 * D[p + 4]
            IN IF x > 16383 /\ (w > 2 \/ x < 65536)
               THEN [ok |-> TRUE, val |-> IntBytes(x, w), len |-> 4] ELSE NoCompactHere
       [] m = 3 ->
            LET n == (b0 \div 4) + 4
            IN IF w < 4 \/ n > w \/ p + 1 + n > l THEN NoCompactHere ELSE
               LET top == D[p + 1 + n]
               IN IF (n = 4 /\ top >= 64) \/ (n > 4 /\ top # 0)
                  THEN [ok |-> TRUE, val |-> PadTo(SubSeq(D, p + 2, p + 1 + n), w), len |-> 1 + n]
                  ELSE NoCompactHere

(* The encoder, written independently of the decoder (used for the round    *)
(* trip invariant): significant bytes of an LE number, shortest mode.       *)
RECURSIVE Trim(_)
Trim(b) == IF Len(b) > 0 /\ b[Len(b)] = 0 THEN Trim(SubSeq(b, 1, Len(b) - 1)) ELSE b
CompactEnc(val) ==
  LET t == Trim(val)
      n == Len(t)
      small == IF n <= 3 THEN (IF n >= 1 THEN t[1] ELSE 0) + (IF n >= 2 THEN 256 * t[2] ELSE 0)
                              + (IF n >= 3 THEN 65536 * t[3] ELSE 0)
               ELSE 0
  IN IF n <= 1 /\ small < 64 THEN <<small * 4>>
     ELSE IF n <= 2 /\ small < 16384 THEN IntBytes(small * 4 + 1, 2)
     ELSE IF n <= 3 THEN IntBytes(small * 4 + 2, 4)
     ELSE IF n = 4 /\ t[4] < 64
          THEN <<((t[1] % 64) * 4) + 2, (t[1] \div 64) + (t[2] % 64) * 4,
                 (t[2] \div 64) + (t[3] % 64) * 4, (t[3] \div 64) + t[4] * 4>>
     ELSE <<(n - 4) * 4 + 3>> \o t

\* --- text ----------------------------------------------------------------
Cont(b) == b >= 128 /\ b < 192
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE ELSE
  LET x == b[i]
      left == Len(b) - i
  IN IF x < 128 THEN Utf8From(b, i + 1)
     ELSE IF x >= 194 /\ x <= 223 THEN left >= 1 /\ Cont(b[i + 1]) /\ Utf8From(b, i + 2)
     ELSE IF x >= 224 /\ x <= 239
          THEN left >= 2 /\ Cont(b[i + 1]) /\ Cont(b[i + 2])
               /\ (x = 224 => b[i + 1] >= 160) /\ (x = 237 => b[i + 1] < 160)
               /\ Utf8From(b, i + 3)
     ELSE IF x >= 240 /\ x <= 244
          THEN left >= 3 /\ Cont(b[i + 1]) /\ Cont(b[i + 2]) /\ Cont(b[i + 3])
               /\ (x = 240 => b[i + 1] >= 144) /\ (x = 244 => b[i + 1] < 144)
               /\ Utf8From(b, i + 4)
     ELSE FALSE
Utf8(b) == Utf8From(b, 1)

\* a char is a Unicode scalar value in 4 bytes LE
CharOk(b) == b[4] = 0 /\ b[3] <= 16 /\ ~(b[3] = 0 /\ b[2] >= 216 /\ b[2] <= 223)

\* --- comparisons ----------------------------------------------------------
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, Len(a))            \* LE numbers of equal width

\* --- fractions: parts per ... ----------------------------------------------
PerAccuracy(ty) == CASE ty = "PerU16" -> <<255, 255>>
                     [] ty = "Percent" -> <<100>>
                     [] ty = "Permill" -> <<64, 66, 15, 0>>                 \* 10^6
                     [] ty = "Perbill" -> <<0, 202, 154, 59>>               \* 10^9
                     [] ty = "Perquintill" -> <<0, 0, 100, 167, 179, 182, 224, 13>>  \* 10^18

\* --- eras -------------------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
EraPeriod(b1, b2) == Pow2((b1 % 16) + 1)
EraQuant(period) == IF period \div 4096 > 1 THEN period \div 4096 ELSE 1
EraPhase(b1, b2) == ((b1 \div 16) + 16 * b2) * EraQuant(EraPeriod(b1, b2))
EraOk(b1, b2) == EraPeriod(b1, b2) >= 4 /\ EraPhase(b1, b2) < EraPeriod(b1, b2)

\* --- bits --------------------------------------------------------------------
(* The k-th bit (from 0) of a bit sequence whose store elements have sb      *)
(* bytes each (little-endian in the data): order "Lsb0" or "Msb0".           *)
BitOf(D, start, sb, order, k) ==
  LET e == k \div (8 * sb)                       \* element
      j == k % (8 * sb)                          \* bit in element, in order
      i == IF order = "Lsb0" THEN j ELSE 8 * sb - 1 - j      \* significance
      byte == D[start + e * sb + (i \div 8) + 1]
  IN (byte \div Pow2(i % 8)) % 2

\* --- printing ------------------------------------------------------------------
DigitStr == "0123456789"
HexDigits == "0123456789abcdef"
RECURSIVE HexFrom(_, _, _)
HexFrom(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE HexFrom(b, i + 1, acc \o SubSeq(HexDigits, (b[i] \div 16) + 1, (b[i] \div 16) + 1)
                             \o SubSeq(HexDigits, (b[i] % 16) + 1, (b[i] % 16) + 1))
Hex(b) == HexFrom(b, 1, "")

\* LE bytes -> sequence of decimal digits, most significant first
RECURSIVE DivTen(_, _, _, _)
DivTen(b, i, rem, q) == IF i = 0 THEN <<q, rem>>
                        ELSE LET x == rem * 256 + b[i]
                             IN DivTen(b, i - 1, x % 10, <<x \div 10>> \o q)
RECURSIVE DigitsAcc(_, _)
DigitsAcc(b, acc) == IF Len(b) = 0 THEN acc
                     ELSE LET r == DivTen(b, Len(b), 0, <<>>)
                          IN DigitsAcc(Trim(r[1]), <<r[2]>> \o acc)
Digits(b) == LET t == Trim(b) IN IF Len(t) = 0 THEN <<0>> ELSE DigitsAcc(t, <<>>)
RECURSIVE DigitsStr(_, _, _)
DigitsStr(d, i, acc) == IF i > Len(d) THEN acc
                        ELSE DigitsStr(d, i + 1, acc \o SubSeq(DigitStr, d[i] + 1, d[i] + 1))
Dec(b) == DigitsStr(Digits(b), 1, "")
\* two's complement
RECURSIVE NegFrom(_, _, _, _)
NegFrom(b, i, carry, acc) == IF i > Len(b) THEN acc
                             ELSE LET x == (255 - b[i]) + carry
                                  IN NegFrom(b, i + 1, x \div 256, Append(acc, x % 256))
DecSigned(b) == IF b[Len(b)] >= 128 THEN "-" \o Dec(NegFrom(b, 1, 1, <<>>)) ELSE Dec(b)

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF Len(ss) = 0 THEN ""
                    ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
=============================================================================
