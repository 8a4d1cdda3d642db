------------------------------- MODULE MCBits -------------------------------
(***************************************************************************)
(* Bit sequences: bits of every length over several elements are written out  *)
(* bit by bit in every store and order, and have to come back; on both the    *)
(* usual and the 32-bit way of reading.                                       *)
(***************************************************************************)
EXTENDS Compose

Names == <<"U8", "U16", "U32", "U64">>
Types == <<Prim("U8"), Prim("U16"), Prim("U32"), Prim("U64"),
           At0(Comp(<<>>), <<"bitvec", "order", "Lsb0">>), At0(Comp(<<>>), <<"bitvec", "order", "Msb0">>),
           Bits(4, 0), Bits(4, 1), Bits(4, 2), Bits(4, 3), Bits(5, 0), Bits(5, 1), Bits(5, 2), Bits(5, 3)>>
M == MetaWith(Types)
Orders == <<"Lsb0", "Msb0">>
Longest == NumEnv("MCLEN", 140)
(* Patterns of bits: single ones, runs, and two that look like no pattern.    *)
BitNo(i, n, p) ==
  CASE p = 0 -> IF i = 1 THEN 1 ELSE 0
    [] p = 1 -> IF i = n THEN 1 ELSE 0
    [] p = 2 -> IF i > n \div 2 THEN 1 ELSE 0
    [] p = 3 -> ((i * i) \div 3 + (i \div 7)) % 2
    [] p = 4 -> (((i * 5 + Seed * 3) * i) \div 11) % 2
    [] p = 5 -> 1
Pattern0(n, p) == [i \in 1..n |-> BitNo(i, n, p)]
(* Where the i-th bit goes: <<byte, weight>>.                                 *)
PlaceOf(i, sb, o) ==
  LET j == i - 1 IN
  IF o = 1 THEN <<(j \div 8) + 1, Pow2(j % 8)>>
  ELSE LET e == j \div (8 * sb)
           r == j % (8 * sb)
       IN <<e * sb + (sb - (r \div 8)), Pow2(7 - (r % 8))>>
BytesNeeded(n, sb) == sb * ((n + 8 * sb - 1) \div (8 * sb))
RECURSIVE WriteBits(_, _, _, _, _)
WriteBits(bits, i, sb, o, acc) ==
  IF i > Len(bits) THEN acc
  ELSE LET w == PlaceOf(i, sb, o) IN WriteBits(bits, i + 1, sb, o, IF bits[i] = 1 THEN [acc EXCEPT ![w[1]] = @ + w[2]] ELSE acc)
(* what is not used of the last element holds ones instead of zeros           *)
Full(n, sb, o) == LET m == BytesNeeded(n, sb) * 8
                  IN WriteBits([i \in 1..m |-> IF i > n THEN 1 ELSE 0], 1, sb, o, Zeros(BytesNeeded(n, sb)))
Written1(bits, sb, o, pad) ==
  WriteBits(bits, 1, sb, o, IF pad THEN Full(Len(bits), sb, o) ELSE Zeros(BytesNeeded(Len(bits), sb)))
Sizes == <<1, 2, 4, 8>>
Twists == 0..4      \* 0 nothing, 1 padding of ones, 2 a byte short, 3 a byte more, 4 a count too many
Starts == {n \in 0..((Longest + 1) * 48 * 5 - 1) : Drawn(n)}
Of(n) == [w |-> (n % 4) + 1, o |-> ((n \div 4) % 2) + 1, p |-> (n \div 8) % 6, t |-> (n \div 48) % 5, len |-> n \div 240]
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, d |-> Of(n), bits |-> Pattern0(Of(n).len, Of(n).p)]
Begin ==
  /\ ph = "pick"
  /\ LET d == start.d
         sb == Sizes[d.w]
         body == Written1(start.bits, sb, d.o, d.t = 1)
         all == CompactEnc(IntBytes(d.len + (IF d.t = 4 THEN 1 ELSE 0), 4)) \o body
         data == CASE d.t = 2 -> SubSeq(all, 1, Len(all) - 1) [] d.t = 3 -> all \o <<255>> [] OTHER -> all
         shift == <<170, 3>>
         K == ACase(M, "all", <<data>>, 0, 5 + d.w + 4 * (d.o - 1))
         ks == <<K, [K EXCEPT !.entry = "at", !.pos = 2, !.bufs = <<shift \o data>>]>>
               \o IF d.w = 4 THEN <<ACase(M, "bit32", <<data>>, 0, d.o - 1)>> ELSE <<>>
     IN Load(ks[1]) /\ todo' = Tail(ks)
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
Size1 == Len(outs[1].case.bufs[1])
(* one bit too many: fits into the last element, if there is room             *)
Room == BytesNeeded(start.d.len + 1, Sizes[start.d.w]) = BytesNeeded(start.d.len, Sizes[start.d.w])
(* one count too many can also make the count itself longer                   *)
Value1(i) == outs[i].toks[1].v
Label == "BitVec" \o Names[start.d.w] \o Orders[start.d.o]
BitsCome ==
  AtEnd =>
    LET t == start.d.t IN
    /\ t \in {0, 1} => /\ R(1).st = "ok" /\ R(1).pos = Size1 /\ outs[1].toks[1].s = Label /\ Value1(1) = start.bits
                       /\ Len(outs[1].toks) = 1
    /\ (t = 2 /\ start.d.len > 0) => R(1).st = "err" /\ R(1).e.k = "DataTooShort"
    /\ (t = 2 /\ start.d.len = 0) => R(1).st = "err"
    /\ t = 3 => R(1).st = "err" /\ R(1).e.k = "SomeDataNotUsedBlob" /\ R(2).st = "ok" /\ R(2).pos = Size1 + 1 /\ Value1(2) = start.bits
    /\ (t = 4 /\ Room) => R(1).st = "ok" /\ Len(Value1(1)) = start.d.len + 1 /\ SubSeq(Value1(1), 1, start.d.len) = start.bits
                          /\ Value1(1)[start.d.len + 1] = 0
    /\ (t = 4 /\ ~Room) => R(1).st = "err" /\ R(1).e.k = "DataTooShort"
Same32 ==
  AtEnd /\ Len(outs) = 3 =>
    IF R(3).st = "ok" THEN /\ R(2).st = "ok" /\ R(3).pos + 2 = R(2).pos /\ R(3).x = <<Value1(2)>>
    ELSE R(2).st = "err" /\ R(3).e.k = R(2).e.k
Shifted == AtEnd => IF R(1).st = "ok" THEN R(2).st = "ok" /\ R(2).pos = R(1).pos + 2 /\ outs[2].toks = outs[1].toks
                    ELSE R(1).e.k = "SomeDataNotUsedBlob" \/ R(2).e.k = R(1).e.k
=============================================================================
