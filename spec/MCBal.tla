-------------------------------- MODULE MCBal --------------------------------
(***************************************************************************)
(* Printed balances: the printed number times its prefix is exactly the       *)
(* amount; nothing is added, nothing lost; one to three digits stand before   *)
(* the point as far as the prefixes reach.                                     *)
(***************************************************************************)
EXTENDS Compose

M == MetaWith(<<Prim("U8")>>)
PowerOf2(k) == [i \in 1..16 |-> IF i = (k \div 8) + 1 THEN Pow2(k % 8) ELSE 0]
BelowPower(k) == [i \in 1..16 |-> IF i < (k \div 8) + 1 THEN 255 ELSE IF i = (k \div 8) + 1 THEN Pow2(k % 8) - 1 ELSE 0]
Mixed(k) == [i \in 1..16 |-> IF i < (k \div 8) + 1 THEN (37 * i + 11 * k + Seed) % 256 ELSE IF i = (k \div 8) + 1 THEN Pow2(k % 8) ELSE 0]
(* amounts by number: around powers of two, d x 10^k (and one below), repeated *)
(* digits                                                                       *)
RECURSIVE TimesTen(_, _, _, _), FromDigits(_, _, _)
TimesTen(b, i, carry, acc) == IF i > Len(b) THEN acc
                              ELSE LET x == 10 * b[i] + carry IN TimesTen(b, i + 1, x \div 256, Append(acc, x % 256))
FromDigits(ds, i, acc) == IF i > Len(ds) THEN acc ELSE FromDigits(ds, i + 1, TimesTen(acc, 1, ds[i], <<>>))
OfDigits(ds) == FromDigits(ds, 1, Zeros(16))
Fill(n, f) == [i \in 1..n |-> f]
DigitsNo(k, j) ==        \* k digits, k in 1..38
  CASE j = 0 -> <<1>> \o Fill(k - 1, 0)
    [] j = 1 -> Fill(k, 9)
    [] j = 2 -> [i \in 1..k |-> (i % 9) + 1]
    [] j = 3 -> <<1>> \o [i \in 1..(k - 1) |-> IF i = k - 1 THEN 1 ELSE 0]
    [] j = 4 -> <<2>> \o [i \in 1..(k - 1) |-> IF i < 3 THEN 5 ELSE 0]
    [] j = 5 -> [i \in 1..k |-> IF i = 1 THEN 7 ELSE (i * i * 3 + Seed * i + k) % 10]
    [] j = 6 -> <<3>> \o [i \in 1..(k - 1) |-> IF i = (k \div 2) THEN 4 ELSE 0]
NDecimals == 256
AmountNo(n) ==
  IF n < 128 * 3 THEN (CASE n % 3 = 0 -> PowerOf2(n \div 3) [] n % 3 = 1 -> BelowPower(n \div 3) [] n % 3 = 2 -> Mixed(n \div 3))
  ELSE LET k == n - 128 * 3 IN OfDigits(DigitsNo((k \div 7) + 1, k % 7))
NAmounts == 128 * 3 + 38 * 7
DecimalsNo(n) == IF n < 45 THEN n ELSE <<60, 100, 127, 128, 254, 255, 50, 46>>[n - 44]
NStarts == NAmounts * 53
Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, amount |-> AmountNo(n % NAmounts), dec |-> DecimalsNo(n \div NAmounts)]
Begin ==
  /\ ph = "pick"
  /\ LET K(w) == ACase(M, "bal", <<SubSeq(start.amount, 1, w), <<85, 78>>>>, start.dec, w)
         w == CHOOSE x \in {1, 2, 4, 8, 16} : x >= Len(Trim(start.amount)) /\ \A y \in {1, 2, 4, 8, 16} : y >= Len(Trim(start.amount)) => x <= y
     IN Load(K(16)) /\ todo' = <<K(w)>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars
----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
Ds == Digits(start.amount)
Y == Layout(Ds, start.dec)
DigitsBack == AtEnd => OfDigits(Ds) = start.amount /\ (Ds # <<0>> => Ds[1] # 0)
Exact == AtEnd => ExactlyAmount(Ds, start.dec, Y)
Clean == AtEnd => Readable(Ds, start.dec, Y) /\ NothingElse(Ds, Y) /\ Len(Y.before) >= 1
(* What is printed is the layout with its prefix and the unit.                 *)
IndexOfPrefix(p) == CHOOSE i \in 1..Len(Prefixes) : Prefixes[i] = p
PrintedSo ==
  AtEnd => /\ R(1).st = "ok" /\ R(1).x = R(2).x
           /\ R(1).x[2] = Prefixes[Y.mag + 5] \o "UN"
           /\ R(1).x[1] = DigitsStr(Y.before, 1, "") \o (IF Y.after = <<>> THEN "" ELSE "." \o DigitsStr(Y.after, 1, ""))
=============================================================================
