------------------------------- MODULE MCMeta -------------------------------
(***************************************************************************)
(* Facts read from metadata: version constants and extrinsic types put        *)
(* together from known parts; what has to be found is said of the parts.      *)
(***************************************************************************)
EXTENDS Compose

U4(x) == IntBytes(x, 4)
(* 0.. fixed types; the last ones are put together.                           *)
Base == <<Prim("U8"), Prim("U32"), Prim("Str"), Comb(1), Comp(<<Fp(1)>>), SeqOf(0), Prim("U128"), Tup(<<>>), Prim("I32"), Comp(<<Fp(2)>>)>>
NBase == Len(Base)
(* Fields of the version struct: name, type, bytes, what it says.             *)
F0(name, ty, bytes, says) == [name |-> name, ty |-> ty, b |-> bytes, says |-> says]
Fields == <<F0(<<"spec_name">>, 2, <<8, 104, 105>>, <<"name", "hi">>), F0(<<"spec_version">>, 1, U4(300), <<"ver", "300">>),
            F0(<<"spec_version">>, 3, CompactEnc(U4(77)), <<"ver", "77">>), F0(<<"spec_version">>, 6, IntBytes(9, 16), <<"ver", "9">>),
            F0(<<"spec_version">>, 0, <<255>>, <<"ver", "255">>), F0(<<"spec_version">>, 4, U4(1), <<>>), F0(<<"spec_version">>, 2, <<4, 49>>, <<>>),
            F0(<<"spec_version">>, 8, U4(3), <<>>), F0(<<"spec_name">>, 1, U4(3), <<>>), F0(<<"spec_name">>, 5, <<4, 65>>, <<>>),
            F0(<<"spec_name">>, 9, <<4, 66>>, <<>>), F0(<<"impl_name">>, 2, <<4, 67>>, <<>>), F0(<<>>, 1, U4(5), <<>>),
            F0(<<"apis">>, 7, <<>>, <<>>), F0(<<"spec_name">>, 2, <<0>>, <<"name", "">>), F0(<<"authoring_version">>, 1, U4(2), <<>>),
            F0(<<"spec_versions">>, 1, U4(2), <<>>), F0(<<"spec_version">>, 2, <<4, 200>>, <<"broken">>)>>
NFields == Len(Fields)
Bases == <<<<1, 2>>, <<2, 1>>, <<1, 12, 16, 2, 14>>, <<1, 3>>, <<15, 4>>, <<1, 5>>, <<12, 1, 2>>, <<2>>, <<1>>, <<>>, <<10, 6>>>>
ListOf(n) ==
  LET base == Bases[(n % Len(Bases)) + 1]
      x == (n \div Len(Bases)) % (NFields + 1)
      p == (n \div (Len(Bases) * (NFields + 1))) % (Len(base) + 1)
  IN IF x = 0 THEN base ELSE SubSeq(base, 1, p) \o <<x>> \o SubSeq(base, p + 1, Len(base))
NLists == Len(Bases) * (NFields + 1) * 4
RECURSIVE BytesFor(_, _)
BytesFor(l, i) == IF i > Len(l) THEN <<>> ELSE Fields[l[i]].b \o BytesFor(l, i + 1)
VersionStruct(l) == Comp([i \in 1..Len(l) |-> Fd(Fields[l[i]].ty, Fields[l[i]].name, <<>>)])
Said(l, what) == SelectSeq([i \in 1..Len(l) |-> Fields[l[i]].says], LAMBDA s : s # <<>> /\ s[1] = what)
(* Pallets: 0 other, 1 System with, 2 System without the constant, 3 System    *)
(* with a broken and then the right constant.                                 *)
PalletLists == <<<<1>>, <<0, 1>>, <<1, 2>>, <<1>>, <<3>>, <<0, 1, 0>>, <<0, 3, 0>>, <<1, 0, 2>>, <<2, 1>>, <<>>, <<0>>>>
(* What the constant is: 0 as it is, 1 a byte more, 2 a byte less, 3 of a type *)
(* that is no struct, 4 of a type that does not exist                          *)
Hows == 0..4

(* Extrinsic types: layers from the outside, a core, and where the parameters  *)
(* are.                                                                        *)
Layers == <<"one", "named", "xt", "xt2", "two", "compact", "one">>
Cores == <<"bytes", "words", "nothing", "tuple", "missing">>
LayerList(n) == CASE n = 0 -> <<>> [] n \in 1..7 -> <<Layers[n]>> [] OTHER -> <<Layers[((n - 8) % 7) + 1], Layers[((n - 8) \div 7) + 1]>>
NShapes == 57 * 5 * 3
ParamLists == <<<<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<1, 2, 3, 4, 1>>, <<2, 3, 4>>, <<1, 3, 4>>, <<1, 2, 4>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5>>,
                <<1, 2, 3, 4, 6>>, <<6, 1, 2, 3, 4>>, <<>>>>
Par(k) == CASE k = 1 -> [name |-> "Address", ty |-> <<0>>] [] k = 2 -> [name |-> "Call", ty |-> <<1>>]
            [] k = 3 -> [name |-> "Signature", ty |-> <<2>>] [] k = 4 -> [name |-> "Extra", ty |-> <<3>>]
            [] k = 5 -> [name |-> "Other", ty |-> <<4>>] [] k = 6 -> [name |-> "Call", ty |-> <<>>]
NXt == NShapes * Len(ParamLists)
(* types from number NBase on: the layers, then the core, then what it needs   *)
LayerTy(l, next) ==
  CASE l = "one" -> Comp(<<Fp(next)>>) [] l = "named" -> At0(Comp(<<Fd(next, <<"inner">>, <<>>)>>), <<"a", "UncheckedExtrinsic">>)
    [] l = "xt" -> At0(Comp(<<Fp(next)>>), <<"sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic">>)
    [] l = "xt2" -> At0(Comp(<<Fp(next), Fp(7)>>), <<"sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic">>)
    [] l = "two" -> Comp(<<Fp(next), Fp(next)>>)
    [] l = "compact" -> Comb(next)
CoreTy(x) == CASE x = "bytes" -> SeqOf(0) [] x = "words" -> SeqOf(1) [] x = "nothing" -> SeqOf(250) [] x = "tuple" -> Tup(<<0>>)
XtReg(s) ==
  LET n == Len(s.layers)
      put(t, here) == IF here THEN [t EXCEPT !.params = [i \in 1..Len(s.params) |-> Par(s.params[i])]] ELSE t
  IN Base \o [i \in 1..n |-> put(LayerTy(s.layers[i], NBase + i), s.on = i)]
     \o IF s.core = "missing" THEN <<>> ELSE <<put(CoreTy(s.core), s.on > n)>>
XtNo(n) == [layers |-> LayerList(n % 57), core |-> Cores[((n \div 57) % 5) + 1], on |-> ((n \div 285) % 3) + 1,
            params |-> ParamLists[(n \div 855) + 1]]

NStarts == NLists * Len(PalletLists) * 7 + NXt
Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
StartNo(n) ==
  IF n < NXt THEN [n |-> n, k |-> "xt", x |-> XtNo(n), l |-> <<>>, p |-> <<>>, how |-> 0]
  ELSE LET k == n - NXt IN [n |-> n, k |-> "ver", x |-> 0, l |-> ListOf(k \div 77), p |-> PalletLists[((k \div 7) % 11) + 1], how |-> IF k % 7 < 5 THEN k % 7 ELSE 0]
Init == /\ PickInit /\ \E n \in Starts : start = StartNo(n)

VersionConst(s) ==
  LET b == BytesFor(s.l, 1) IN
  [name |-> "Version", ty |-> CASE s.how = 3 -> 1 [] s.how = 4 -> 250 [] OTHER -> NBase,
   value |-> CASE s.how = 1 -> b \o <<0>> [] s.how = 2 -> SubSeq(b, 1, Len(b) - 1) [] s.how = 3 -> U4(7) [] OTHER -> b]
PalletFor(s, k) ==
  CASE k = 0 -> [name |-> "Systems", consts |-> <<VersionConst(s)>>]
    [] k = 1 -> [name |-> "System", consts |-> <<[name |-> "Versions", ty |-> 0, value |-> <<1, 2>>], VersionConst(s)>>]
    [] k = 2 -> [name |-> "System", consts |-> <<[name |-> "version", ty |-> NBase, value |-> <<>>]>>]
    [] k = 3 -> [name |-> "System", consts |-> <<[name |-> "Version", ty |-> 0, value |-> <<1, 2>>], VersionConst(s)>>]
VerMeta(s, v) == [reg |-> Append(Base, VersionStruct(s.l)), v |-> v, pallets |-> [i \in 1..Len(s.p) |-> PalletFor(s, s.p[i])],
                  exts |-> <<[id |-> "A", ty |-> 1, add |-> 2], [id |-> "B", ty |-> 0, add |-> 200]>>, xty |-> 0, xver |-> 4,
                  xp |-> [a |-> 0, c |-> 0, s |-> 0, e |-> 0]]
XtMeta(s) == [reg |-> XtReg(s.x), v |-> 14, pallets |-> <<>>, exts |-> <<>>, xty |-> NBase, xver |-> 7, xp |-> [a |-> 0, c |-> 0, s |-> 0, e |-> 0]]
XtMeta15(s) == [reg |-> XtReg(s.x), v |-> 15, pallets |-> <<>>, exts |-> <<>>, xty |-> 0, xver |-> 7, xp |-> [a |-> 0, c |-> 1, s |-> 2, e |-> 3]]
Begin ==
  /\ ph = "pick"
  /\ LET K(m, e) == ACase(m, e, <<<<>>>>, 0, 0) IN
     IF start.k = "ver"
     THEN Load(K(VerMeta(start, 14), "mver")) /\ todo' = <<K(VerMeta(start, 15), "mver"), K(VerMeta(start, 14), "mexts")>>
     ELSE Load(K(XtMeta(start), "mparams")) /\ todo' = <<K(XtMeta(start), "mcall"), K(XtMeta15(start), "mparams"), K(XtMeta15(start), "mcall")>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars
----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
S == start
(* The System pallet that counts is the first one.                            *)
Systems == SelectSeq(S.p, LAMBDA k : k # 0)
Versions == Said(S.l, "ver")
Names0 == Said(S.l, "name")
Twice == Len(Versions) > 1 \/ Len(Names0) > 1
Expected ==
  IF Systems = <<>> THEN "NoSystemPallet"
  ELSE IF Systems[1] = 2 THEN "NoVersionInConstants"
  ELSE IF S.how = 3 THEN "UnexpectedRuntimeVersionFormat"
  ELSE IF S.how = 4 \/ S.how = 1 \/ Said(S.l, "broken") # <<>> \/ (S.how = 2 /\ BytesFor(S.l, 1) # <<>>) THEN "RuntimeVersionNotDecodeable"
  ELSE ""
VersionFound ==
  AtEnd /\ S.k = "ver" =>
    IF Expected # "" THEN R(1).st = "err" /\ R(1).e.k = Expected
    ELSE IF Twice THEN R(1).st = "err" /\ R(1).e.k \in {"SpecVersionIdentifierTwice", "SpecNameIdentifierTwice"}
                       /\ (Len(Versions) < 2 => R(1).e.k = "SpecNameIdentifierTwice")
                       /\ (Len(Names0) < 2 => R(1).e.k = "SpecVersionIdentifierTwice")
    ELSE IF Versions = <<>> THEN R(1).e.k = "NoSpecVersionIdentifier"
    ELSE IF Names0 = <<>> THEN R(1).e.k = "NoSpecNameIdentifier"
    ELSE R(1).st = "ok" /\ R(1).x[1] = Versions[1][2] /\ Utf8Str(R(1).x[2]) = Names0[1][2]
EitherMetadata == AtEnd /\ S.k = "ver" => R(1) = R(2)
ExtensionsAsListed == AtEnd /\ S.k = "ver" => R(3).x = <<<<"A", 1, 2>>, <<"B", 0, 200>>>>
----------------------------------------------------------------------------
X == S.x
(* Wrappers that are looked through: structs of one field without a special    *)
(* path, and one compact. What remains must be a vector of bytes, or an        *)
(* extrinsic struct of one field around it; the parameters are that type's.    *)
Through == {"one", "named", "compact"}
NThrough == LET bad == {i \in 1..Len(X.layers) : X.layers[i] \notin Through} IN
            IF bad = {} THEN Len(X.layers) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
Left == SubSeq(X.layers, NThrough + 1, Len(X.layers))
TwoCompacts == Cardinality({i \in 1..NThrough : X.layers[i] = "compact"}) > 1
Holder == IF Left = <<>> THEN Len(X.layers) + 1 ELSE NThrough + 1
HasParams == X.on = Holder \/ (X.on > Len(X.layers) /\ Left = <<>>)
ShapeOk == ~TwoCompacts /\ X.core = "bytes" /\ (Left = <<>> \/ Left = <<"xt">>)
Wanted == IF HasParams THEN X.params ELSE <<>>
Want(name) == LET at == {i \in 1..Len(Wanted) : Par(Wanted[i]).name = name} IN
              IF at = {} THEN <<>> ELSE Par(Wanted[CHOOSE i \in at : \A j \in at : j <= i]).ty
All4 == \A n \in {"Address", "Call", "Signature", "Extra"} : Want(n) # <<>>
ParamsFound ==
  AtEnd /\ S.k = "xt" =>
    /\ (R(1).st = "ok") = (ShapeOk /\ All4)
    /\ R(1).st = "ok" => R(1).x = <<Want("Address")[1], Want("Call")[1], Want("Signature")[1], Want("Extra")[1], 7>> /\ R(2).x = <<Want("Call")[1]>>
    /\ R(1).e.k \in {"NoAddressParam", "NoCallParam", "NoExtraParam", "NoSignatureParam"} =>
         ShapeOk /\ Want(SubSeq(R(1).e.k, 3, Len(R(1).e.k) - 5)) = <<>>
    /\ R(1).e.k = "UnexpectedExtrinsicType" => ~ShapeOk
    /\ R(1).e.w = "ExtrinsicTypeNotResolved" => TwoCompacts \/ X.core \in {"missing", "nothing"}
    /\ R(2).st = R(1).st /\ (R(1).st = "err" => R(2).e = R(1).e)
Declared15 == AtEnd /\ S.k = "xt" => R(3).x = <<0, 1, 2, 3, 7>> /\ R(4).x = <<1>>
=============================================================================
