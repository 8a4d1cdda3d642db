-------------------------------- MODULE MCTx --------------------------------
(***************************************************************************)
(* Signable transactions put together from known parts: what has to come     *)
(* out is said of the parts, and compared with what the machine makes of     *)
(* the bytes.  The same call and extensions are parsed length-marked, in     *)
(* halves, unmarked, and under equivalent V14 and V15 metadata.              *)
(***************************************************************************)
EXTENDS Compose

U4(x) == IntBytes(x, 4)
(* 10: "spec_version" may also be read from a field name                      *)
Types ==
  <<Prim("U8"), Prim("U32"), Tup(<<>>),
    At0(Comp(<<Fp(5)>>), <<"primitive_types", "H256">>),
    At0(Vari(<<>>), <<"sp_runtime", "generic", "era", "Era">>),
    Arr(0, 32),
    At0(Vari(<<Vr("c0", 0, <<>>), Vr("c1", 1, <<Fd(0, <<"x">>, <<>>)>>), Vr("c2", 2, <<Fp(10)>>)>>), <<"p", "pallet", "Call">>),
    At0(Vari(<<Vr("P", 0, <<Fp(6)>>), Vr("Q", 2, <<Fp(0)>>)>>), <<"rt", "RuntimeCall">>),
    Comp(<<Fd(9, <<"spec_name">>, <<>>), Fd(1, <<"spec_version">>, <<>>)>>),
    Prim("Str"),
    SeqOf(0),
    Comp(<<Fp(1)>>), Comp(<<Fp(4)>>), Comp(<<Fp(3)>>), Comp(<<Fd(1, <<"spec_version">>, <<>>)>>),
    Comp(<<Fp(3), Fp(3)>>), Tup(<<1>>), Comb(1), Prim("U16"), Comp(<<Fp(11)>>)>>
Params == <<[name |-> "Address", ty |-> <<0>>], [name |-> "Call", ty |-> <<7>>],
            [name |-> "Signature", ty |-> <<2>>], [name |-> "Extra", ty |-> <<2>>]>>
Version == 300
VersionBytes == <<4, 119>> \o U4(Version)
MetaOf(exts, v) ==
  [reg |-> IF v = 14 THEN [Types EXCEPT ![11].params = Params] ELSE Types,
   v |-> v, pallets |-> <<[name |-> "System", consts |-> <<[name |-> "Version", ty |-> 8, value |-> VersionBytes]>>]>>,
   exts |-> exts, xty |-> IF v = 14 THEN 10 ELSE 0, xver |-> 4,
   xp |-> IF v = 14 THEN [a |-> 0, c |-> 0, s |-> 0, e |-> 0] ELSE [a |-> 0, c |-> 7, s |-> 2, e |-> 2]]

Ext(id, ty, add) == [id |-> id, ty |-> ty, add |-> add]
Menu == <<Ext("CheckSpecVersion", 2, 1), Ext("CheckGenesis", 2, 3), Ext("CheckMortality", 4, 3),
          Ext("CheckMortality", 12, 3), Ext("CheckNonce", 17, 2), Ext("CheckSpecVersion", 11, 2),
          Ext("CheckGenesis", 13, 2), Ext("Other", 14, 3), Ext("CheckNonce", 14, 4), Ext("CheckGenesis", 2, 15),
          Ext("CheckSpecVersion", 2, 18), Ext("CheckSpecVersion", 19, 17), Ext("CheckSpecVersion", 16, 1),
          Ext("CheckTxVersion", 2, 1), Ext("ChargeTransactionPayment", 17, 2), Ext("CheckMortality", 2, 13),
          Ext("Era", 4, 2), Ext("CheckSpecVersion", 0, 1)>>
NMenu == Len(Menu)
(* Lists of one to four extensions: sensible ones with something added or     *)
(* taken away, by number.                                                      *)
Bases == <<<<1, 2, 3>>, <<6, 2, 4>>, <<12, 7, 3>>, <<1, 7>>, <<11, 2, 16>>, <<1, 3, 2>>, <<2, 1>>, <<17, 1, 2>>, <<1>>, <<2>>,
           <<1, 2, 16, 17>>, <<3, 2, 14, 1>>>>
ListOf(n) ==
  LET base == Bases[(n % Len(Bases)) + 1]
      m == n \div Len(Bases)
      x == m % (NMenu + 2)                          \* which to add; 0 none, last: drop one
      p == (m \div (NMenu + 2)) % (Len(base) + 1)   \* where
  IN IF x = 0 THEN base
     ELSE IF x = NMenu + 1 THEN (IF p = 0 THEN base ELSE SubSeq(base, 1, p - 1) \o SubSeq(base, p + 1, Len(base)))
     ELSE SubSeq(base, 1, p) \o <<x>> \o SubSeq(base, p + 1, Len(base))
NLists == Len(Bases) * (NMenu + 2) * 5

HA == [i \in 1..32 |-> 170]
HB == [i \in 1..32 |-> IF i = 32 THEN 171 ELSE 170]
Numbers == <<Version, 44>>                       \* 44 is 300 modulo 256
Options(ty) ==
  CASE ty = 0 -> <<<<44>>>> [] ty \in {1, 11, 14, 16, 19} -> <<U4(300), U4(44)>>
    [] ty = 2 -> <<<<>>>> [] ty \in {3, 13} -> <<HA, HB>> [] ty \in {4, 12} -> <<<<0>>, <<5, 0>>>>
    [] ty = 15 -> <<HA \o HA, HA \o HB>> [] ty = 17 -> <<CompactEnc(U4(300)), CompactEnc(U4(44))>>
    [] ty = 18 -> <<IntBytes(300, 2), IntBytes(44, 2)>>

(* What a part says, from the rules about identifiers, field names and types. *)
Says(id, ty, o) ==
  CASE ty \in {1, 11, 17, 18} -> IF id = "CheckSpecVersion" THEN <<"ver", Numbers[o]>> ELSE <<>>
    [] ty = 0 -> IF id = "CheckSpecVersion" THEN <<"ver", 44>> ELSE <<>>
    [] ty = 14 -> IF HintOfExt(id) \in {"None", "CheckSpecVersion"} THEN <<"ver", Numbers[o]>> ELSE <<>>
    [] ty \in {3, 13} -> IF id = "CheckGenesis" THEN <<"gen", o>>
                         ELSE IF id = "CheckMortality" THEN <<"blk", o>> ELSE <<>>
    [] ty \in {4, 12} -> <<"era", o>>
    [] OTHER -> <<>>
NParts == 2 * Len(start.list)
PartId(i) == Menu[start.list[((i - 1) % Len(start.list)) + 1]].id
PartType(i) == LET e == Menu[start.list[((i - 1) % Len(start.list)) + 1]]
               IN IF i <= Len(start.list) THEN e.ty ELSE e.add
RECURSIVE PieceBytes(_, _)
PieceBytes(os, i) == IF i > NParts THEN <<>> ELSE Options(PartType(i))[os[i]] \o PieceBytes(os, i + 1)
Said(os, K) == {i \in 1..NParts : LET s == Says(PartId(i), PartType(i), os[i]) IN s # <<>> /\ s[1] = K}
SaidAt(os, i) == Says(PartId(i), PartType(i), os[i])[2]
Pickone(S) == CHOOSE i \in S : TRUE
HashNo(o) == IF o = 1 THEN HA ELSE HB
Good(os, gh) ==
  LET ver == Said(os, "ver")  gen == Said(os, "gen")  blk == Said(os, "blk")  era == Said(os, "era") IN
  /\ Cardinality(ver) = 1 /\ SaidAt(os, Pickone(ver)) = Version
  /\ Cardinality(gen) = 1 /\ (gh # <<>> => gh[1] = HashNo(SaidAt(os, Pickone(gen))))
  /\ Cardinality(blk) <= 1 /\ Cardinality(era) <= 1
  /\ (era # {} /\ blk # {} /\ SaidAt(os, Pickone(era)) = 1) =>
       SaidAt(os, Pickone(gen)) = SaidAt(os, Pickone(blk))
(* An error about the contents names something that is so.                    *)
ErrorIsSo(os, gh, e) ==
  LET ver == Said(os, "ver")  gen == Said(os, "gen")  blk == Said(os, "blk")  era == Said(os, "era") IN
  CASE e.k = "NoSpecVersion" -> ver = {}
    [] e.k = "SpecVersionTwice" -> Cardinality(ver) > 1
    [] e.k = "WrongSpecVersion" -> \A i \in ver : SaidAt(os, i) # Version /\ e.s = ToString(SaidAt(os, i)) \o "/300"
    [] e.k = "NoGenesisHash" -> gen = {}
    [] e.k = "GenesisHashTwice" -> Cardinality(gen) > 1
    [] e.k = "WrongGenesisHash" -> gh # <<>> /\ \A i \in gen : HashNo(SaidAt(os, i)) # gh[1]
    [] e.k = "BlockHashTwice" -> Cardinality(blk) > 1
    [] e.k = "EraTwice" -> Cardinality(era) > 1
    [] e.k = "ImmortalHashMismatch" -> \E i \in era : SaidAt(os, i) = 1
    [] OTHER -> FALSE

Long == <<0, 2>> \o CompactEnc(<<63>>) \o [i \in 1..63 |-> i]          \* 66 bytes, two for their number
Calls == <<<<0, 0>>, <<0, 1, 9>>, <<0, 2, 8, 1, 2>>, <<0, 1>>, <<2, 9>>, <<1>>, <<>>, <<0, 0, 5>>, Long, <<0, 1>> \o [i \in 1..63 |-> i]>>
RECURSIVE Vectors(_)
Vectors(n) == IF n = 0 THEN {<<>>} ELSE {Append(x, o) : x \in Vectors(n - 1), o \in {1, 2}}
ChoicesFor(list) ==       \* every option where there are two
  {os \in Vectors(2 * Len(list)) :
     \A i \in 1..(2 * Len(list)) :
        LET e == Menu[list[((i - 1) % Len(list)) + 1]] IN
        os[i] <= Len(Options(IF i <= Len(list) THEN e.ty ELSE e.add))}
Twist == {<<0, <<>>, 0>>, <<0, <<>>, 1>>, <<0, <<>>, 2>>, <<1, <<>>, 0>>, <<-1, <<>>, 0>>, <<0, <<7>>, 0>>, <<100, <<>>, 0>>}

Starts == {n \in 0..(NLists - 1) : Drawn(n) /\ ListOf(n) # <<>>}
Init == /\ PickInit
        /\ \E n \in Starts : start = [n |-> n, list |-> ListOf(n), os |-> <<>>, call |-> <<>>, tail |-> <<>>, gh |-> <<>>, d |-> 0]
Thin(os, k, t) == LET h == 31 * k + 17 * t[1] + 5 * Len(t[2]) + 3 * t[3] + (IF Len(os) > 0 THEN os[1] + 2 * os[Len(os)] ELSE 0)
                  IN (h + start.n + Seed) % NumEnv("MCTHIN", 7) = 0
Begin ==
  /\ ph = "pick"
  /\ \E os \in ChoicesFor(start.list), k \in 1..Len(Calls), t \in Twist :
       /\ Thin(os, k, t)
       /\ LET call == Calls[k]
              ext == PieceBytes(os, 1) \o t[2]
              len == IF Len(call) + t[1] < 0 THEN 0 ELSE Len(call) + t[1]
              pre == CompactEnc(U4(len))
              all == call \o ext
              in == IF len > Len(all) THEN all ELSE First(all, len)
              out == IF len > Len(all) THEN <<>> ELSE Rest(all, len)
              gh == CASE t[3] = 0 -> <<>> [] t[3] = 1 -> <<HA>> [] t[3] = 2 -> <<HB>>
              ex == [i \in 1..Len(start.list) |-> Menu[start.list[i]]]
              m4 == MetaOf(ex, 14)
              m5 == MetaOf(ex, 15)
              K(e, m, b) == [ACase(m, e, <<b>>, 0, 0) EXCEPT !.gh = gh]
          IN /\ Load(K("tx", m4, pre \o all))
             /\ todo' = <<K("dcall", m4, pre \o all), K("dext", m4, pre \o all), K("mark", m4, pre \o all),
                          K("txu", m4, all), K("call", m4, in), K("ext", m4, out), K("tx", m5, pre \o all),
                          K("txu", m5, all)>>
             /\ start' = [start EXCEPT !.os = os, !.call = call, !.tail = t[2], !.gh = gh, !.d = len - Len(call)]
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
T_(i) == outs[i].toks
Exact == start.d = 0
Fine == Good(start.os, start.gh) /\ start.tail = <<>>
CallMeans == {x \in Meanings(7, start.call) : x[1].k = "call"}
(* C06, C07: with nothing twisted, what the parts say decides.                *)
ExtensionsDecide == AtEnd /\ Exact => (R(7).st = "ok") = Fine
ExtensionErrors ==
  AtEnd /\ Exact /\ R(7).st = "err" =>
    IF start.tail # <<>> THEN R(7).e.k = "SomeDataNotUsedExtensions" /\ R(7).e.p = Len(outs[7].case.bufs[1]) - Len(start.tail)
    ELSE ErrorIsSo(start.os, start.gh, R(7).e)
RECURSIVE PartTokens(_)
PartTokens(i) ==
  IF i > NParts THEN <<>>
  ELSE MTok("part", 0, "ext", <<>>, <<>>)
       \o (CHOOSE x \in Spoken(PartType(i), Options(PartType(i))[start.os[i]], PartId(i)) : TRUE) \o PartTokens(i + 1)
InOrder == AtEnd /\ Exact /\ R(7).st = "ok" => AbsAll(T_(7), 1) = PartTokens(1)
(* C05: call and extensions stay on their side of the mark.                   *)
Honoured == R(4).st = "ok"
Split ==
  AtEnd =>
    /\ Honoured = (Len(start.call) + start.d <= Len(outs[5].case.bufs[1]))
    /\ ~Honoured => \A i \in 1..4 : R(i).st = "err" /\ R(i).e = R(4).e
    /\ Honoured =>
         /\ R(3).st = R(7).st /\ R(3).e.k = R(7).e.k
         /\ R(3).st = "ok" => T_(3) = T_(7)
         /\ (R(2).st = "ok") = (R(6).st = "ok" /\ R(6).pos = Len(outs[6].case.bufs[1]))
         /\ R(2).st = "ok" => T_(2) = T_(6)
         /\ R(1).st = R(3).st /\ R(1).e = R(3).e
         /\ R(1).st = "ok" => (R(1).cst = "ok") = (R(2).st = "ok")
         /\ R(1).st = "ok" /\ R(1).cst = "ok" => T_(1) = T_(3) \o T_(2)
         /\ R(1).cst = "err" => R(1).ce = R(2).e
CallMeant == AtEnd /\ Exact => (R(2).st = "ok") = (CallMeans # {})
CallSaid == AtEnd /\ Exact /\ R(2).st = "ok" => {Tail(AbsAll(T_(2), 1))} = CallMeans
(* C08: the unmarked form.                                                    *)
Unmarked ==
  AtEnd /\ Exact =>
    /\ R(1).st = "ok" /\ R(1).cst = "ok" => R(5).st = "ok" /\ T_(5) = T_(2) \o T_(3)
    /\ CallMeans # {} => R(5).st = R(7).st /\ R(5).e.k = R(7).e.k
(* C17: where the facts come from makes no difference.                        *)
Equivalent == AtEnd => R(8) = R(1) /\ T_(8) = T_(1) /\ R(9) = R(5) /\ T_(9) = T_(5)
=============================================================================
