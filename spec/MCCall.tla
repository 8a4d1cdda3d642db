-------------------------------- MODULE MCCall --------------------------------
(***************************************************************************)
(* Calls and events: an outer and an inner enum with every combination of     *)
(* paths, of what the inner type is, and of field counts, over all short       *)
(* strings; alone, nested in arguments, in lists, and where a call is          *)
(* required.                                                                   *)
(***************************************************************************)
EXTENDS Compose

Outer == <<<<"rt", "RuntimeCall">>, <<"rt", "Call">>, <<"RuntimeEvent">>, <<"rt", "Event">>, <<>>, <<"rt", "Calls">>, <<"Call", "x">>>>
Inner == <<<<"pallet", "Call">>, <<"pallet", "Event">>, <<"RuntimeCall">>, <<"x", "RuntimeEvent">>, <<>>, <<"pallet", "MultiSignature">>, <<"sp_runtime", "Era">>>>
(* 0 u8, 1 u16, 2 inner, 3 outer, 4 list of outer, 5 compact u16, 6 struct     *)
(* of inner, 7 pair of outer and u8, 8 an event, 9 its enum, 10 list of events *)
(* 11 Compact of outer                                                          *)
Args == <<Vr("none", 0, <<>>), [Vr("one", 1, <<Fd(0, <<"value">>, <<"Balance">>)>>) EXCEPT !.docs = <<"one", "doc">>],
          Vr("call", 2, <<Fd(3, <<"call">>, <<"Box<Call>">>)>>), Vr("batch", 4, <<Fd(4, <<"calls">>, <<>>), Fp(0)>>),
          Vr("two", 7, <<Fd(5, <<"nonce">>, <<>>), Fp(0)>>), Vr("again", 1, <<>>), Vr("inner", 9, <<Fp(2)>>)>>
Inners == <<Vari(Args), Vari(Args), Vari(Args), Vari(<<>>), Comp(<<Fp(0)>>), Comp(<<Fp(9)>>), Tup(<<0>>), Prim("U8"), Arr(0, 1),
            Vari(<<Vr("call", 2, <<Fp(3)>>), Vr("lost", 1, <<Fp(250)>>), Vr("event", 4, <<Fp(8)>>)>>)>>
Outers == <<Vari(<<Vr("P", 0, <<Fd(2, <<>>, <<"pallet">>)>>), Vr("Q", 1, <<Fp(2), Fp(0)>>), Vr("R", 2, <<>>), Vr("S", 4, <<Fp(0)>>), Vr("T", 7, <<Fp(6)>>)>>),
            Vari(<<Vr("S", 0, <<Fd(0, <<"nonce">>, <<>>)>>), Vr("P", 1, <<Fp(2)>>), Vr("P2", 1, <<Fp(0)>>), Vr("Self", 2, <<Fp(3)>>), Vr("Lost", 4, <<Fp(250)>>), Vr("Evt", 7, <<Fp(9)>>)>>),
            Comp(<<Fp(2)>>)>>
Docs1(t, n) == IF n % 3 = 0 THEN t ELSE [t EXCEPT !.docs = <<"doc of type">>]
RegFor(o, i, x, y, n) ==
  <<Prim("U8"), Prim("U16"), Docs1(At0(Inners[x], Inner[i]), n), Docs1(At0(Outers[y], Outer[o]), n \div 3), SeqOf(3), Comb(1),
    Comp(<<Fd(2, <<"in">>, <<>>)>>), Tup(<<3, 0>>), At0(Vari(<<Vr("E", 0, <<Fp(9)>>)>>), <<"RuntimeEvent">>),
    At0(Vari(<<Vr("a", 0, <<>>), Vr("b", 1, <<Fp(0)>>), Vr("c", 2, <<Fp(3)>>)>>), <<"pal", "Event">>), SeqOf(8), Comb(3)>>
Roots == <<3, 3, 3, 4, 7, 6, 11, 8, 2>>
NStarts == Len(Outer) * Len(Inner) * Len(Inners) * Len(Outers) * Len(Roots)
(* Paths that make a pattern come more often than others.                      *)
Fitting(n) == LET o == n % 7  i == (n \div 7) % 7 IN (o \in {0, 1} /\ i \in {0, 2}) \/ (o \in {2, 3} /\ i \in {1, 3})
Starts == {n \in 0..(NStarts - 1) : Drawn(n) /\ (Fitting(n) \/ (n \div 3) % 5 = 0)}
MetaOf(n) ==
  LET o == (n % 7) + 1  i == ((n \div 7) % 7) + 1  x == ((n \div 49) % 10) + 1  y == ((n \div 490) % 3) + 1 IN
  [MetaWith(RegFor(o, i, x, y, n)) EXCEPT !.v = 15, !.xp = [a |-> 0, c |-> Roots[(n \div 1470) + 1], s |-> 0, e |-> 0]]
Init == PickInit /\ \E n \in Starts : start = [n |-> n, m |-> MetaOf(n), ty |-> Roots[(n \div 1470) + 1]]
Symbols == <<0, 1, 2, 4, 7, 9>>
RECURSIVE StringNo(_, _)
StringNo(n, len) == IF len = 0 THEN <<>> ELSE <<Symbols[(n % 6) + 1]>> \o StringNo(n \div 6, len - 1)
MaxLen == NumEnv("MCLEN", 5)
Begin ==
  /\ ph = "pick"
  /\ \E len \in 0..MaxLen, k \in 0..7775 :
       /\ k < 6 ^len /\ Mix(k * 7 + len + start.n) % (IF len < 3 THEN 1 ELSE NumEnv("MCTHIN", 199)) = 0
       /\ LET b == StringNo(k, len) IN
          RunAll(<<ACase(start.m, "all", <<b>>, 0, start.ty), ACase(start.m, "at", <<<<7>> \o b \o <<2>>>>, 1, start.ty),
                   ACase(start.m, "call", <<<<9>> \o b \o <<1>>>>, 1, 0), ACase(start.m, "dcall", <<CompactEnc(IntBytes(len, 2)) \o b \o <<1>>>>, 0, 0)>>)
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars
----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
B0 == outs[1].case.bufs[1]
IsCall(x) == x[1].k = "call"
SaysWhatItMeans ==
  AtEnd => LET M == Meanings(start.ty, B0) IN
           IF R(1).st = "ok" THEN M = {AbsAll(outs[1].toks, 1)} ELSE M = {}
Elsewhere ==
  AtEnd /\ R(1).st = "ok" => R(2).st = "ok" /\ R(2).pos = 1 + Len(B0) /\ outs[2].toks = outs[1].toks
(* Where a call is required: the same item if it is a call, else refused      *)
(* with the type named.                                                        *)
Required ==
  AtEnd /\ R(1).st = "ok" =>
    LET x == outs[1].toks IN
    IF IsCall(x) THEN /\ R(3).st = "ok" /\ R(3).pos = 1 + Len(B0) /\ Tail(outs[3].toks) = x
                      /\ R(4).st = "ok" /\ Tail(outs[4].toks) = x
    ELSE \A i \in 3..4 : R(i).st = "err" /\ R(i).e.k \in {"NotACall", "UnexpectedCallTy"} /\ R(i).e.p = start.ty
NotCall ==
  AtEnd => \A i \in 3..4 : R(i).st = "ok" => IsCall(Tail(outs[i].toks))
(* In a length-marked part leftover bytes are no end of the call.             *)
MarkedWhole == AtEnd /\ R(4).st = "ok" => R(1).st = "ok"
(* Calls only under a call pattern, events only under an event pattern.       *)
Kinds(i) == {outs[i].toks[j].k : j \in 1..Len(outs[i].toks)}
CallPaths == {"Call", "RuntimeCall"}
NoCallHere ==
  AtEnd /\ (\A t \in {start.m.reg[j] : j \in 1..Len(start.m.reg)} : Ident(t) \notin CallPaths) => \A i \in 1..2 : "call" \notin Kinds(i)
=============================================================================
