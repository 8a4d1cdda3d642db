------------------------------- MODULE MCDeep -------------------------------
(***************************************************************************)
(* Registries of seven types made by number out of all kinds of types, and    *)
(* data made by number too: encodings of the first of them, whole, cut,        *)
(* longer or with a byte changed.  The invariants are those of MCItem.         *)
(***************************************************************************)
EXTENDS MCItem

Rnd(s, k) == Mix(((s % 60013) * 31) + (k * 7919))
From(list, x) == list[(x % Len(list)) + 1]
(* 6 .. 12 are free; what else there is                                        *)
Free == 6..12
More == <<Prim("Str"), Prim("U32"), Prim("Char"), At0(Vari(<<>>), <<"generic", "Era">>), At0(Comp(<<Fp(0)>>), <<"p", "Percent">>),
          At0(Comp(<<Fp(21)>>), <<"primitive_types", "H256">>), At0(Comp(<<Fp(14)>>), <<"p", "Perbill">>), Prim("U64"), Arr(0, 32), Prim("I16"),
          At0(Comp(<<>>), <<"o", "Msb0">>)>>                  \* 13 .. 23
Simple == <<0, 0, 1, 2, 3, 5, 13, 14, 15, 16, 17, 18, 19, 20, 22, 0, 1, 14>>
Numbers0 == <<0, 1, 3, 14, 17, 20>>
RefNo(x, s, k) ==            \* for the type with id x
  LET y == Rnd(s, k) IN
  IF y % 23 = 0 THEN From(<<6, 7, 8, 9, 10, 11, 12, 30>>, y \div 23)
  ELSE IF y % 5 < 2 \/ x = 12 THEN From(Simple, y \div 23) ELSE x + 1 + ((y \div 23) % (12 - x))
FieldNo(x, s, k) ==
  LET y == Rnd(s, k + 50) IN
  Fd(RefNo(x, s, k), From(<<<<>>, <<"a">>, <<"nonce">>, <<"b">>, <<>>, <<"spec_version">>, <<"tx_version">>, <<"spec_name">>>>, y),
     From(<<<<>>, <<>>, <<"Balance">>, <<"BalanceOf<T>">>, <<"u32">>>>, y \div 8))
FieldsNo(x, s, n) == [k \in 1..n |-> FieldNo(x, s, k)]
TypePath(s) == From(<<<<>>, <<>>, <<>>, <<"m", "T">>, <<"f", "CheckNonce">>, <<"f", "ChargeAssetTxPayment">>, <<"f", "ChargeTransactionPayment">>>>, Rnd(s, 77))
FreeNo(x, s) ==
  LET y == Rnd(s, 99)  z == Rnd(s, 98) IN
  CASE y % 15 \in {0, 1} -> At0(Comp(FieldsNo(x, s, 1)), TypePath(s))
    [] y % 15 \in {2, 3} -> At0(Comp(FieldsNo(x, s, 2 + (z % 2))), TypePath(s))
    [] y % 15 = 4 -> Tup([k \in 1..(z % 4) |-> RefNo(x, s, k)])
    [] y % 15 = 5 -> Tup(<<RefNo(x, s, 1)>>)
    [] y % 15 \in {6, 7} -> SeqOf(RefNo(x, s, 1))
    [] y % 15 = 8 -> Arr(RefNo(x, s, 1), z % 4)
    [] y % 15 = 9 -> Comb(From(Numbers0, z))
    [] y % 15 = 10 -> Comb(RefNo(x, s, 1))
    [] y % 15 = 11 -> Bits(From(<<4, 23, 23, 0>>, z), From(<<0, 1, 14, 20, 0, 5>>, z \div 4))
    [] y % 15 = 12 -> Vari(<<Vr("A", 0, <<>>), Vr("B", 1, FieldsNo(x, s, 1)), Vr("C", 4, FieldsNo(x, s + 1, 2))>>)
    [] y % 15 = 13 -> At0(Vari(<<Vr("A", 3, FieldsNo(x, s, 1)), Vr("B", 7, <<>>), Vr("A2", 3, <<>>)>>), From(<<<<>>, <<"Event">>, <<"r", "RuntimeCall">>>>, z))
    [] y % 15 = 14 -> At0(Vari(<<Vr("a", 0, FieldsNo(x, s, z % 3)), Vr("b", 1, FieldsNo(x, s + 7, 1))>>), From(<<<<"pal", "Event">>, <<"pal", "Call">>>>, z))
(* Every other registry starts with a pattern that matters by itself.          *)
Uints == <<0, 14, 20, 17, 19, 0, 14, 20>>
Pattern1(z, s) ==
  LET u == From(Uints, z \div 17)  v == From(Uints, z \div 131)  f(x) == Fd(x, From(<<<<>>, <<"nonce">>>>, z \div 7), <<>>) IN
  CASE z % 12 = 0 -> <<Comb(7), Comp(<<f(u), Fp(v)>>)>>
    [] z % 12 = 1 -> <<Comb(7), Tup(<<u, v>>)>>
    [] z % 12 = 2 -> <<Comb(7), Comp(<<f(8)>>), Tup(<<u>>)>>
    [] z % 12 = 3 -> <<SeqOf(7), SeqOf(0)>>
    [] z % 12 = 4 -> <<SeqOf(7), Comp(<<f(8)>>), SeqOf(9), Comp(<<f(0)>>)>>
    [] z % 12 = 5 -> <<SeqOf(7), Comp(<<f(8)>>), Comb(u)>>
    [] z % 12 = 6 -> <<SeqOf(7), Arr(u, z % 3)>>
    [] z % 12 = 7 -> <<SeqOf(7), Comp(<<f(u)>>)>>
    [] z % 12 = 8 -> <<Comp(<<Fd(7, <<"nonce">>, <<>>)>>), Comp(<<Fp(8)>>), Comp(<<f(u), Fp(v)>>)>>
    [] z % 12 = 9 -> <<Tup(<<7, 8>>), Comp(<<f(u)>>), Comb(7)>>
    [] z % 12 = 10 -> <<SeqOf(7), SeqOf(u)>>
    [] z % 12 = 11 -> <<Arr(7, z % 4), SeqOf(8), Comp(<<f(u)>>)>>
DeepReg0(n) ==
  LET p == IF n % 2 = 0 THEN <<>> ELSE Pattern1(Rnd(n, 5), n) IN
  Base \o [k \in 1..7 |-> IF k <= Len(p) THEN p[k] ELSE FreeNo(k + 5, (n * 13) + k)] \o More
DeepReg(n) ==
  LET reg == DeepReg0(n) IN
  [i \in 1..Len(reg) |-> IF reg[i].def = "Sequence" /\ MayBeEmpty(reg, reg[i].ty, {}) THEN SeqOf(3) ELSE reg[i]]

NumberNo(z, w) == LET v == From(<<<<0>>, <<1>>, <<63>>, <<64>>, <<255>>, <<0, 1>>, <<255, 63>>, <<0, 64>>, <<255, 255>>, <<1, 2, 3, 63>>, <<1, 2, 3, 64>>, <<5, 0, 0, 0, 0, 1>>, <<100>>, <<101>>>>, z)
                  IN SubSeq(v \o Zeros(16), 1, w)
CharNo(z) == From(<<<<65, 0, 0, 0>>, <<0, 216, 0, 0>>, <<255, 255, 16, 0>>, <<255, 215, 0, 0>>>>, z)
EraNo(z) == From(<<<<0>>, <<5, 0>>, <<245, 0>>, <<1, 0>>, <<31, 255>>, <<255, 255>>, <<0>>, <<229, 1>>>>, z)
TextNo(z) == From(<<<<0>>, <<4, 65>>, <<8, 195, 169>>, <<8, 65, 66>>>>, z)
RECURSIVE EncNo(_, _, _, _, _), EncFields(_, _, _, _, _, _, _), EncMany(_, _, _, _, _, _, _)
NData == NumEnv("MCDATA", 12)
MaxData == NumEnv("MCLEN", 36)
EncFields(reg, tys, i, cmp, s, d, acc) ==          \* no more than is of use
  IF i > Len(tys) \/ Len(acc) > MaxData THEN acc
  ELSE EncFields(reg, tys, i + 1, cmp, s, d, acc \o EncNo(reg, tys[i], cmp, ((s * 5) + i) % 999983, d - 1))
EncMany(reg, ty, n, cmp, s, d, acc) ==
  IF n = 0 \/ Len(acc) > MaxData THEN acc
  ELSE EncMany(reg, ty, n - 1, cmp, s, d, acc \o EncNo(reg, ty, cmp, ((s * 3) + n) % 999983, d - 1))
EncNo(reg, id, cmp, s, d) ==
  IF id >= Len(reg) \/ d = 0 THEN <<>>
  ELSE LET t == reg[id + 1]  h == Hinted(t)  z == Rnd(s, 3) IN
  IF h \in PerThings
  THEN LET v == IF z % 3 = 0 THEN PerAccuracy(h) ELSE NumberNo(z, Len(PerAccuracy(h))) IN IF cmp THEN CompactEnc(v) ELSE v
  ELSE IF h = "Era" THEN EraNo(z)
  ELSE IF h = "H256" THEN [k \in 1..32 |-> (z + k) % 256]
  ELSE CASE t.def = "Primitive" ->
              (CASE t.prim \in UintNames -> LET v == NumberNo(z, UintWidth(t.prim)) IN IF cmp THEN CompactEnc(v) ELSE v
                 [] t.prim = "Bool" -> <<z % 2>> [] t.prim = "Str" -> TextNo(z) [] t.prim = "Char" -> CharNo(z)
                 [] OTHER -> NumberNo(z, FixedWidth(t.prim)))
         [] t.def = "Composite" -> EncFields(reg, [k \in 1..Len(t.fields) |-> t.fields[k].ty], 1, cmp, s, d, <<>>)
         [] t.def = "Tuple" -> EncFields(reg, t.tys, 1, cmp, s, d, <<>>)
         [] t.def = "Compact" -> EncNo(reg, t.ty, TRUE, s, d - 1)
         [] t.def = "Array" -> EncMany(reg, t.ty, t.len[2], FALSE, s, d, <<>>)
         [] t.def = "Sequence" -> LET n == IF d < 2 THEN 0 ELSE z % 4 IN CompactEnc(<<n>>) \o EncMany(reg, t.ty, n, FALSE, s, d, <<>>)
         [] t.def = "BitSequence" ->
              LET n == From(<<0, 3, 8, 9, 16>>, z)
                  w == IF t.store < Len(reg) /\ reg[t.store + 1].def = "Primitive" THEN StoreBytes(reg[t.store + 1]) ELSE 1
                  sb == IF w = 0 THEN 1 ELSE w
              IN CompactEnc(<<n>>) \o [k \in 1..(((n + 8 * sb - 1) \div (8 * sb)) * sb) |-> (z + 37 * k) % 256]
         [] t.def = "Variant" ->
              IF Len(t.variants) = 0 THEN <<>>
              ELSE LET v == IF d < 2 THEN t.variants[1] ELSE From(t.variants, z)
                   IN <<v.ix>> \o EncFields(reg, [k \in 1..Len(v.fields) |-> v.fields[k].ty], 1, FALSE, s, d, <<>>)
(* What is done to an encoding                                                  *)
Spoiled(b, how, z) ==
  CASE how \in 0..2 -> b
    [] how = 3 -> IF b = <<>> THEN <<1>> ELSE SubSeq(b, 1, z % Len(b))
    [] how = 4 -> b \o <<From(<<0, 1, 4, 255>>, z)>>
    [] how = 5 -> IF b = <<>> THEN <<255>> ELSE [b EXCEPT ![(z % Len(b)) + 1] = From(<<0, 1, 2, 3, 4, 8, 255, 128>>, z \div 7)]

NRegs == NumEnv("MCREGS", 20000)
DStarts == {n \in 0..(NRegs - 1) : Drawn(n)}
DInit ==
  /\ PickInit
  /\ \E n \in DStarts :
       LET reg == DeepReg(n + ((Seed % 997) * 1009)) IN
       start = [n |-> n, m |-> MetaWith(Decorated(reg, (n + Seed) % 4)), bare |-> MetaWith(reg), bald |-> MetaWith(Bald(reg))]
DBegin ==
  \E k \in 0..(NData - 1) :
    LET s == start.n + (k * 4001)
        x == Spoiled(EncNo(start.bare.reg, 6, FALSE, s, 6), k % 6, Rnd(s, 11))
        b == IF Len(x) <= MaxData THEN x ELSE First(x, MaxData)
    IN RunAll(<<ACase(start.m, "all", <<b>>, 0, 6), ACase(start.m, "at", <<<<4>> \o b \o <<1, 0>>>>, 1, 6),
                   ACase(start.bare, "all", <<b>>, 0, 6), ACase(start.bald, "all", <<b>>, 0, 6),
                   ACase(start.m, "at", <<b>>, 0, 6)>>)
DNext == DBegin \/ RunStep \/ NextCase \/ Ended
=============================================================================
