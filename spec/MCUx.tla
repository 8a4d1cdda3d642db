-------------------------------- MODULE MCUx --------------------------------
(***************************************************************************)
(* Unchecked extrinsics: which strings are extrinsics is said by splitting    *)
(* the string in all ways - length, version byte, parts - and the machine     *)
(* has to accept exactly those and show those parts.                          *)
(***************************************************************************)
EXTENDS Compose

Types ==
  <<Prim("U8"), Prim("U16"), Tup(<<>>), SeqOf(0),
    Vari(<<Vr("c0", 0, <<>>), Vr("c1", 1, <<Fd(0, <<"x">>, <<>>)>>), Vr("c2", 4, <<Fp(3)>>)>>),
    Vari(<<Vr("P", 0, <<Fp(4)>>), Vr("Q", 4, <<Fp(0)>>)>>),
    At0(Vari(<<Vr("c0", 0, <<>>), Vr("c1", 1, <<Fd(0, <<"x">>, <<>>)>>), Vr("c2", 4, <<Fp(3)>>)>>), <<"p", "pallet", "Call">>),
    At0(Vari(<<Vr("P", 0, <<Fp(6)>>), Vr("Q", 4, <<Fp(0)>>)>>), <<"rt", "RuntimeCall">>),
    Vari(<<Vr("Id", 0, <<Fp(0)>>), Vr("Index", 1, <<Fp(9)>>)>>),
    Comb(1), Comp(<<Fd(9, <<"nonce">>, <<>>), Fd(2, <<"tip">>, <<>>)>>), Tup(<<0, 9>>),
    At0(Vari(<<>>), <<"era", "Era">>)>>
(* What the parts can be: address, signature, extra, call.                    *)
Addresses == <<0, 8, 3, 2>>
Signatures0 == <<1, 2, 3, 13>>
Extras == <<2, 10, 11, 12, 9>>
CallTypes == <<7, 7, 7, 6, 5, 0>>
Versions == <<4, 4, 5, 0, 127, 132, 255>>      \* the last two fit no version byte
NStarts == 4 * 4 * 5 * 6 * 7
ChoiceNo(n) == [a |-> Addresses[(n % 4) + 1], s |-> Signatures0[((n \div 4) % 4) + 1], e |-> Extras[((n \div 16) % 5) + 1],
                c |-> CallTypes[((n \div 80) % 6) + 1], xver |-> Versions[((n \div 480) % 7) + 1]]
MetaOf(p, v) ==
  LET params == <<[name |-> "Address", ty |-> <<p.a>>], [name |-> "Call", ty |-> <<p.c>>],
                  [name |-> "Signature", ty |-> <<p.s>>], [name |-> "Extra", ty |-> <<p.e>>]>>
  IN [reg |-> IF v = 14 THEN Append(Types, [SeqOf(0) EXCEPT !.params = params]) ELSE Append(Types, SeqOf(0)),
      v |-> v, pallets |-> <<>>, exts |-> <<>>, xty |-> IF v = 14 THEN 13 ELSE 0, xver |-> p.xver,
      xp |-> IF v = 14 THEN [a |-> 0, c |-> 0, s |-> 0, e |-> 0] ELSE [a |-> p.a, c |-> p.c, s |-> p.s, e |-> p.e]]

Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, p |-> ChoiceNo(n)]

(* Some encodings of each type, and for all something that is none.           *)
Some(ty) ==
  CASE ty = 0 -> <<<<0>>, <<4>>, <<>>>>
    [] ty = 1 -> <<<<8, 1>>, <<0, 0>>, <<7>>>>
    [] ty = 2 -> <<<<>>, <<>>, <<0>>>>
    [] ty = 3 \/ ty = 13 -> <<<<0>>, <<8, 4, 1>>, <<8, 4>>>>
    [] ty = 8 -> <<<<0, 9>>, <<1, 8>>, <<4, 4>>>>
    [] ty = 9 -> <<<<4>>, <<1, 1>>, <<1, 0>>>>
    [] ty = 10 -> <<<<8>>, <<5, 1>>, <<7>>>>
    [] ty = 11 -> <<<<0, 8>>, <<4, 1, 1>>, <<0>>>>
    [] ty = 12 -> <<<<0>>, <<5, 0>>, <<1>>>>
    [] ty \in 5..7 -> <<<<0, 0>>, <<0, 1, 9>>, <<0, 4, 4, 7>>, <<0, 1>>, <<4, 0>>, <<8, 8>>, <<1>>>>
Prefix(len, how) ==
  CASE how = 0 -> CompactEnc(IntBytes(len, 4))
    [] how = 1 -> IntBytes(4 * len + 1, 2)                       \* longer than need be
    [] how = 2 -> IntBytes(4 * len + 2, 4)
    [] how = 3 -> <<2, 0, 1, 0>> [] how = 4 -> <<>> [] how = 5 -> <<7, 0, 0, 0, 1>>
Begin ==
  /\ ph = "pick"
  /\ LET p == start.p  IN
     \E i \in 1..3, j \in 1..3, k \in 1..3, l \in 1..Len(Some(p.c)), b \in {0, 128, 1, 129, 4, 64}, d \in {0, 1, -1, 30},
        how \in 0..5, t \in {<<>>, <<4>>, <<0, 5>>} :
       /\ (Cardinality({x \in {i, j, k} : x = 3}) + (IF b \in {0, 128} THEN 0 ELSE 1) + (IF d = 0 THEN 0 ELSE 1)
           + (IF how = 0 THEN 0 ELSE 1) + (IF t = <<>> THEN 0 ELSE 1)) < 2
       /\ (31 * i + 17 * j + 13 * k + 7 * l + 3 * b + 5 * d + 11 * how + 19 * Len(t) + start.n + Seed) % NumEnv("MCTHIN", 5) = 0
       /\ LET body == <<(p.xver + b) % 256>>
                      \o (IF b \in {128, 129} THEN Some(p.a)[i] \o Some(p.s)[j] \o Some(p.e)[k] ELSE <<>>)
                      \o Some(p.c)[l] \o t
              len == Len(body) + d
              all == Prefix(IF len < 0 THEN 0 ELSE len, how) \o body
          IN Load(ACase(MetaOf(p, 14), "uxt", <<all>>, 0, 0)) /\ todo' = <<ACase(MetaOf(p, 15), "uxt", <<all>>, 0, 0)>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
PartOf(ty, name) == [ty |-> ty, hint |-> "None", pre |-> MTok("part", 0, name, <<>>, <<>>)]
SignedParts(p) == <<PartOf(p.a, "address"), PartOf(p.s, "signature"), PartOf(p.e, "extra"), PartOf(p.c, "call")>>
CallIn(x) == \E i \in 1..Len(x) : x[i].k = "part" /\ x[i].s = "call" /\ x[i + 1].k = "call"
BodyMeanings(p, b) ==
  IF b = <<>> THEN {}
  ELSE IF b[1] % 128 # p.xver THEN {}
  ELSE IF b[1] < 128 THEN {MTok("part", 0, "unsigned", <<>>, <<>>) \o x : x \in Products(<<PartOf(p.c, "call")>>, 1, Rest(b, 1), FALSE, {})}
  ELSE {MTok("part", 0, "signed", <<>>, <<>>) \o x : x \in Products(SignedParts(p), 1, Rest(b, 1), FALSE, {})}
Lengths(b) == {k \in 1..Len(b) : Len(b) - k \in Counts(First(b, k))}
UxMeanings(p, b) == UNION {{x \in BodyMeanings(p, Rest(b, k)) : CallIn(x)} : k \in Lengths(b)}
Data1(i) == outs[i].case.bufs[1]
Decided ==
  AtEnd => \A i \in 1..Len(outs) :
    IF outs[i].dev = "" THEN
      IF R(i).st = "ok" THEN UxMeanings(start.p, Data1(i)) = {AbsAll(outs[i].toks, 1)}
      ELSE UxMeanings(start.p, Data1(i)) = {}
    ELSE (* the recorded finding: right up to a tail that nothing stands for  *)
      /\ R(i).st = "ok" /\ UxMeanings(start.p, Data1(i)) = {}
      /\ \E k \in Lengths(Data1(i)) : \E e \in k..(Len(Data1(i)) - 1) :
            AbsAll(outs[i].toks, 1) \in {x \in BodyMeanings(start.p, SubSeq(Data1(i), k + 1, e)) : CallIn(x)}
ErrorsAreSo ==
  AtEnd /\ R(1).st = "err" =>
    LET e == R(1).e  b == Data1(1) IN
    /\ e.k = "FormatNoCompact" => \A k \in 1..Len(b) : Counts(First(b, k)) = {}
    /\ e.k = "VersionMismatch" => \E k \in Lengths(b) : b[k + 1] % 128 # start.p.xver /\ e.n = <<b[k + 1], start.p.xver>>
    /\ e.k = "UnexpectedCallTy" => \E k \in Lengths(b) : \A x \in BodyMeanings(start.p, Rest(b, k)) : ~CallIn(x)
    /\ Lengths(b) = {} => e.k \in {"FormatNoCompact", "DataTooShort", "SomeDataNotUsedBlob"}
Equivalent == AtEnd /\ outs[1].dev = outs[2].dev =>
                IF start.p.s = 13 THEN R(1).st = R(2).st ELSE R(1) = R(2) /\ outs[1].toks = outs[2].toks
=============================================================================
