------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* Storage entries: which keys belong to an entry is said by splitting the   *)
(* key in all ways between its hashers; the machine has to accept exactly    *)
(* those keys, and show those parts.                                         *)
(***************************************************************************)
EXTENDS Compose

Types == <<Prim("U8"), Prim("U16"), Tup(<<0, 0>>), Tup(<<0, 1>>), Comp(<<Fd(0, <<"nonce">>, <<>>)>>), SeqOf(0),
           Tup(<<5, 3, 0>>), Tup(<<>>), Tup(<<7, 5>>), Comb(1), Tup(<<4>>), Tup(<<11, 0>>)>>
M == MetaWith(Types)
All == <<"Identity", "Blake2_128", "Blake2_256", "Twox128", "Twox256", "Twox64Concat", "Blake2_128Concat">>
NAll == Len(All)
(* by number: one hasher, two, three, none *)
HashersNo(n) ==
  IF n < NAll THEN <<All[n + 1]>>
  ELSE IF n < NAll + NAll * NAll THEN LET k == n - NAll IN <<All[(k % NAll) + 1], All[(k \div NAll) + 1]>>
  ELSE IF n = NAll + NAll * NAll THEN <<>>
  ELSE LET k == n - NAll - NAll * NAll IN <<All[(k % NAll) + 1], All[((k * 3) % NAll) + 1], All[((k * 5 + 1) % NAll) + 1]>>
NHashers == NAll + NAll * NAll + 15
Keys == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
Values0 == <<0, 5, 7>>

Entry(h, key, val) == [plain |-> FALSE, h |-> h, key |-> key, val |-> val, docs |-> <<"a", "b">>]
PlainEntry(val) == [plain |-> TRUE, h |-> <<>>, key |-> 0, val |-> val, docs |-> <<>>]
NStarts == NHashers * Len(Keys) * Len(Values0)
EntryNo(n) ==
  LET k == n \div Len(Values0) IN
  IF (n % 17) = 0 THEN PlainEntry(Values0[(n % Len(Values0)) + 1])
  ELSE Entry(HashersNo(k \div Len(Keys)), Keys[(k % Len(Keys)) + 1], Values0[(n % Len(Values0)) + 1])
(* mostly entries whose hashers and key type go together                     *)
Fits(s) == \/ s.plain
           \/ Len(s.h) = 1 /\ s.key < 11
           \/ s.key < 10 /\ Types[s.key + 1].def = "Tuple" /\ Len(Types[s.key + 1].tys) = Len(s.h)
Starts == {n \in 0..(NStarts - 1) : Drawn(n) /\ (Fits(EntryNo(n)) \/ n % 19 = 0)}
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, st |-> EntryNo(n)]

Prefix32 == [i \in 1..32 |-> 200 + i]
Stuff == <<<<>>, <<4>>, <<0>>, <<8, 1, 0>>, <<5, 1>>, <<4, 1, 12>>>>
Known(h, d) == h = "Identity" \/ Opaque(h)
(* A part of a key: 1 right, 2 hash of something else, 3 no hash, 4 one bit.  *)
PieceOf(h, d, how) ==
  IF Opaque(h) THEN [i \in 1..(IF how = 3 THEN HashLen(h) - 1 ELSE HashLen(h)) |-> i]
  ELSE IF h = "Identity" THEN d
  ELSE CASE how = 1 -> HashOf(h, d) \o d [] how = 2 -> HashOf(h, d \o <<0>>) \o d [] how = 3 -> d
         [] how = 4 -> [HashOf(h, d) EXCEPT ![HashLen(h)] = (@ + 1) % 256] \o d
RECURSIVE KeyOf(_, _, _, _)
KeyOf(h, ds, hows, i) == IF i > Len(h) THEN <<>> ELSE PieceOf(h[i], ds[((i - 1) % 2) + 1], hows[((i - 1) % 2) + 1]) \o KeyOf(h, ds, hows, i + 1)
Hows == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<1, 3>>, <<4, 1>>, <<1, 4>>}
Twists == {<<0, <<>>>>, <<1, <<>>>>, <<0, <<9>>>>, <<0, <<4>>>>}
Begin ==
  /\ ph = "pick"
  /\ \E a, b \in 1..Len(Stuff), hows \in Hows, t \in Twists, v \in {<<>>, <<7>>, <<4, 7>>, <<7, 7>>} :
       LET key == Prefix32 \o KeyOf(start.st.h, <<Stuff[a], Stuff[b]>>, hows, 1) \o t[2]
           cut == SubSeq(key, 1, Len(key) - t[1])
           K(e, s) == [ACase(M, e, IF e = "key" THEN <<Rest(cut, IF Len(cut) < 32 THEN Len(cut) ELSE 32)>> ELSE <<cut, v>>, 0, 0) EXCEPT !.st = <<s>>]
       IN /\ (a * 7 + b * 11 + hows[1] * 3 + hows[2] * 5 + t[1] + Len(v) + start.n + Seed) % NumEnv("MCTHIN", 20) = 0
          /\ Load(K("storage", start.st))
          /\ todo' = IF start.st.plain THEN <<>> ELSE <<K("key", start.st)>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
SS == start.st
PartTypes == IF Len(SS.h) = 1 THEN <<SS.key>>
             ELSE IF Resolvable(SS.key) /\ Ty(SS.key).def = "Tuple" /\ Len(Ty(SS.key).tys) = Len(SS.h) THEN Ty(SS.key).tys
             ELSE <<-1>>
MHash(h, id, v) == <<Tok("hash", id, h, <<>>, "", v, "", <<>>, <<>>, <<>>)>>
RECURSIVE KeyMeanings(_, _, _, _)
KeyMeanings(h, tys, i, b) ==
  IF i > Len(h) THEN (IF b = <<>> THEN {<<>>} ELSE {})
  ELSE IF Opaque(h[i])
  THEN IF Len(b) < HashLen(h[i]) THEN {}
       ELSE {MHash(h[i], tys[i], First(b, HashLen(h[i]))) \o x : x \in KeyMeanings(h, tys, i + 1, Rest(b, HashLen(h[i])))}
  ELSE LET w == IF h[i] = "Identity" THEN 0 ELSE HashLen(h[i]) IN
       UNION {LET d == SubSeq(b, w + 1, w + k) IN
              IF h[i] # "Identity" /\ HashOf(h[i], d) # First(b, w) THEN {}
              ELSE {MTok("part", 0, "key", <<>>, <<>>) \o x \o y :
                      x \in Meanings(tys[i], d), y \in KeyMeanings(h, tys, i + 1, Rest(b, w + k))} : k \in 0..(Len(b) - w)}
KeyToken == IF SS.plain THEN TKey("Plain", <<>>)
            ELSE IF Len(SS.h) = 1 THEN TKey("SingleHash", <<>>) ELSE TKey("TupleHash", <<InfoOf(Ty(SS.key))>>)
EntryMeanings(key, val) ==
  IF Len(key) < 32 \/ (PartTypes = <<-1>> /\ ~SS.plain) THEN {}
  ELSE LET tail == {MDocs(MTok("part", 0, "value", <<>>, <<>>), SS.docs) \o y : y \in Meanings(SS.val, val)} IN
       IF SS.plain THEN (IF Len(key) = 32 THEN {<<KeyToken>> \o y : y \in tail} ELSE {})
       ELSE {<<KeyToken>> \o x \o y : x \in KeyMeanings(SS.h, PartTypes, 1, Rest(key, 32)), y \in tail}
Decided ==
  AtEnd => LET k == outs[1].case IN
           IF R(1).st = "ok" THEN EntryMeanings(k.bufs[1], k.bufs[2]) = {AbsAll(outs[1].toks, 1)}
           ELSE EntryMeanings(k.bufs[1], k.bufs[2]) = {}
KeyAlone ==
  AtEnd /\ Len(outs) = 2 /\ Len(outs[1].case.bufs[1]) >= 32 =>
    /\ R(1).st = "ok" => R(2).st = "ok"
    /\ R(2).st = "ok" /\ R(1).st = "err" => R(1).e.w = "ParsingValue"
    /\ R(2).st = "err" => R(1).e.k = R(2).e.k
ErrorsAreSo ==
  AtEnd /\ R(1).st = "err" =>
    LET e == R(1).e  key == outs[1].case.bufs[1]  val == outs[1].case.bufs[2] IN
    /\ (e.k = "KeyShorterThanPrefix") = (Len(key) < 32)
    /\ (e.k = "PlainKeyExceedsPrefix") = (SS.plain /\ Len(key) > 32)
    /\ (e.w = "ParsingValue") => Meanings(SS.val, val) = {}
    /\ (e.k = "MultipleHashesNumberMismatch") => Len(SS.h) # Len(Ty(SS.key).tys)
    /\ (e.k = "MultipleHashesNotATuple") => Len(SS.h) # 1 /\ Ty(SS.key).def # "Tuple"
=============================================================================
