------------------------------- MODULE Balance -------------------------------
(***************************************************************************)
(* How an integer amount is printed as a balance of a chain: exactly, with   *)
(* the unit prefix (tera .. atto) that leaves one to three digits before the *)
(* point, as far as the prefixes reach.                                      *)
(***************************************************************************)
EXTENDS Bytes

Prefixes == <<"T", "G", "M", "k", "", "m", "u", "n", "p", "f", "a">>   \* mag -4 .. 6
FloorDiv3(h) == IF h >= 0 THEN h \div 3 ELSE -((2 - h) \div 3)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
ZeroDigits(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 0]
Join(a, b) == IF Len(b) = 0 THEN DigitsStr(a, 1, "")
              ELSE DigitsStr(a, 1, "") \o "." \o DigitsStr(b, 1, "")

(* digits: most significant first, no leading zeros unless zero itself.      *)
(* [before, after, mag]: the amount is before.after x 10^(-3 mag) units.     *)
Layout(digits, decimals) ==
  IF digits = <<0>>
  THEN LET mag == Clamp(decimals \div 3, 0, 6)      \* zero shows its precision
       IN [before |-> <<0>>, after |-> ZeroDigits(decimals - 3 * mag), mag |-> mag]
  ELSE LET top == Len(digits) - 1 - decimals         \* power of ten of the first digit
           mag == Clamp(-FloorDiv3(top), -4, 6)
           n == top + 3 * mag + 1                    \* digits before the point
           all == digits \o ZeroDigits(n - Len(digits))
       IN IF n <= 0 THEN [before |-> <<0>>, after |-> ZeroDigits(-n) \o digits, mag |-> mag]
          ELSE [before |-> SubSeq(all, 1, n), after |-> SubSeq(all, n + 1, Len(all)), mag |-> mag]
Printed(digits, decimals, unit) ==
  LET y == Layout(digits, decimals)
  IN <<Join(y.before, y.after), Prefixes[y.mag + 5] \o unit>>
PrintedBytes(b, decimals, unit) == Printed(Digits(b), decimals, unit)

(* The meaning of a layout, independent of how it was found: the k-th digit   *)
(* of the amount stands at the same power of ten, and nothing else is there.  *)
At10(y, k) ==             \* digit of a layout at power 10^k of the unit
  LET j == k + 3 * y.mag IN                          \* power within the printed number
  IF j >= 0 THEN (IF j < Len(y.before) THEN y.before[Len(y.before) - j] ELSE 0)
  ELSE (IF -j <= Len(y.after) THEN y.after[-j] ELSE 0)
ExactlyAmount(digits, decimals, y) ==
  \A k \in -(decimals + 3)..(Len(digits) + 3) :
     LET p == k + decimals                            \* position in the amount
     IN At10(y, k) = IF p >= 0 /\ p < Len(digits) THEN digits[Len(digits) - p] ELSE 0
NothingElse(digits, y) ==
  {i \in 1..Len(y.before) : y.before[i] # 0} = {} \/ Len(y.before) + Len(y.after) >= Len(digits)
Readable(digits, decimals, y) ==
  LET top == Len(digits) - 1 - decimals IN
  /\ y.mag \in -4..6
  /\ (digits # <<0>> /\ top \in -18..14) => Len(y.before) \in 1..3 /\ y.before[1] # 0
=============================================================================
