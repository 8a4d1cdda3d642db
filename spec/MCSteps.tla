------------------------------- MODULE MCSteps -------------------------------
(***************************************************************************)
(* The public steps on their own, in registries made by number (MCDeep): a    *)
(* value is decoded as a whole and then once more out of steps, each in the   *)
(* state the one before left: what is passed on to a field, a tuple part or   *)
(* an element is enough, and the parts make the whole.                        *)
(***************************************************************************)
EXTENDS MCDeep

Hints0 == <<"None", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment",
            "ChargeTransactionPayment", "FieldBalance", "FieldNonce", "FieldSpecName", "FieldSpecVersion", "FieldTxVersion">>
ExtNames == <<"CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment",
              "ChargeTransactionPayment", "CheckWeight", "CheckSpecVersio", "checkNonce", "ChargeTransactionPaymentX", "">>
SM(reg) == [MetaWith(reg) EXCEPT !.exts = [i \in 1..Len(ExtNames) |-> [id |-> ExtNames[i], ty |-> 0, add |-> 2]]]

SInit ==
  /\ PickInit
  /\ \E n \in DStarts, x \in {6, 6 + (Rnd(Seed, 5) % 7), 6 + (Rnd(Seed, 6) % 18)} :
       LET reg == DeepReg(n + ((Seed % 997) * 1009)) IN
       start = [n |-> n, x |-> x, m |-> SM(Decorated(reg, (n + Seed) % 4)), data |-> <<>>]
Pre == <<4, 0>>                         \* bytes before the value
P0 == 2
TX == start.m.reg[start.x + 1]
Known == Hinted(TX) \notin {"None", "UncheckedExtrinsic"}
SCase(e, b, p, ty) == ACase(start.m, e, <<b>>, p, ty)
SomeIds(z) == From(<<<<>>, <<start.x>>, <<6, 7>>, <<8>>, <<0, 1, 14>>, <<3, 9>>>>, z)
Static(b, z) ==
  LET h == From(Hints0, z)
      some(k) == With(k, h, From(<<-1, -1, -1, 3>>, z \div 13), SomeIds(z \div 52)) IN
  <<SCase("at", b, P0, start.x), SCase("dwt", b, P0, start.x), With(SCase("dwt", b, P0, start.x), h, -1, <<>>),
    SCase("husk", b, P0, start.x), SCase("spec", b, P0, start.x), SCase("info", b, 0, start.x), some(SCase("fty", b, 0, start.x)),
    some(SCase("hint", b, 0, start.x)), SCase("exth", b, z % Len(ExtNames), 0), some(SCase("dwt", b, P0, start.x)),
    some(SCase("husk", b, P0, start.x))>>
  \o CASE TX.def = "Composite" -> [i \in 1..Len(TX.fields) |-> some(SCase("fld", b, i - 1, start.x))]
       [] TX.def = "Variant" -> <<SCase("pick", b, P0, start.x), SCase("pick", b, Len(b), start.x)>>
       [] TX.def = "BitSequence" -> <<SCase("order", b, 0, start.x), SCase("bvp", b, P0, 1), SCase("bvp", b, P0, 2), SCase("bvp", b, P0, 4), SCase("bvp", b, P0, 8)>>
       [] TX.def = "Primitive" /\ TX.path = <<>> -> <<SCase("prim", b, P0, start.x), some(SCase("prim", b, P0, start.x))>>
       [] OTHER -> <<>>
NStatic == 11 + (CASE TX.def = "Composite" -> Len(TX.fields) [] TX.def = "Variant" -> 2 [] TX.def = "BitSequence" -> 5
                   [] TX.def = "Primitive" /\ TX.path = <<>> -> 2 [] OTHER -> 0)
SBegin ==
  /\ ph = "pick"
  /\ \E k \in 0..(NData - 1) :
       LET s == start.n + (k * 4001) + (start.x * 17)
           e == Spoiled(EncNo(start.m.reg, start.x, FALSE, s, 6), k % 6, Rnd(s, 11))
           b == Pre \o (IF Len(e) <= MaxData THEN e ELSE First(e, MaxData)) \o (IF k % 6 \in {3, 5} THEN <<>> ELSE <<9>>)
           list == Static(b, Rnd(s, 12))
       IN Load(list[1]) /\ todo' = Tail(list) /\ start' = [start EXCEPT !.data = b]
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0

(* The chain: what is run next, given all that was run.                        *)
ChainOf(os) == SubSeq(os, NStatic + 1, Len(os))
PosAfter(ch) == LET d == {i \in 1..Len(ch) : ch[i].case.entry = "dwt"} IN
                IF d = {} THEN -1 ELSE ch[CHOOSE i \in d : \A j \in d : j <= i].res.pos
Where(ch, p) == IF PosAfter(ch) = -1 THEN p ELSE PosAfter(ch)
Count0 == CompactAt(start.data, P0, Len(start.data), 4)
HowMany == IF TX.def = "Array" THEN TX.len[2] ELSE LET n == PairOfBytes(Count0.val) IN IF PairFits(n) THEN PairInt(n) ELSE 1073741823
PickedNo == IF P0 >= Len(start.data) THEN 0 ELSE Pick(TX.variants, start.data[P0 + 1])
ChainNext(ch) ==
  LET k == Len(ch)
      D(ty, p, a) == With(SCase("dwt", start.data, p, ty), a[1], a[2], a[3])
  IN IF Known \/ (k > 0 /\ ch[k].res.st = "err") THEN <<>>
     ELSE CASE TX.def = "Composite" ->
                 IF k % 2 = 1 THEN <<D(TX.fields[(k + 1) \div 2].ty, Where(ch, P0), ch[k].res.x)>>
                 ELSE IF k \div 2 < Len(TX.fields) THEN <<SCase("fld", start.data, k \div 2, start.x)>> ELSE <<>>
            [] TX.def = "Tuple" ->
                 IF k % 2 = 1 THEN <<D(TX.tys[(k + 1) \div 2], Where(ch, P0), ch[k].res.x)>>
                 ELSE IF k \div 2 < Len(TX.tys) THEN <<SCase("fty", start.data, 0, TX.tys[(k \div 2) + 1])>> ELSE <<>>
            [] TX.def \in {"Sequence", "Array"} ->
                 IF TX.def = "Sequence" /\ ~Count0.ok THEN <<>>
                 ELSE IF k = 0 THEN <<SCase("husk", start.data, 0, TX.ty)>>
                 ELSE IF k - 1 < HowMany
                 THEN LET h == ch[1].res.x IN
                      <<D(h[1], IF k = 1 THEN (IF TX.def = "Array" THEN P0 ELSE P0 + Count0.len) ELSE ch[k].res.pos, <<h[4], h[5], h[6]>>)>>
                 ELSE <<>>
            [] TX.def = "Compact" -> IF k = 0 THEN <<D(TX.ty, P0, <<"None", start.x, <<TX.ty>>>>)>> ELSE <<>>
            [] TX.def = "Variant" ->
                 IF PickedNo = 0 THEN <<>>
                 ELSE LET fs == TX.variants[PickedNo].fields IN
                      IF k < Len(fs)
                      THEN <<D(fs[k + 1].ty, IF k = 0 THEN P0 + 1 ELSE ch[k].res.pos, <<HintOfField(fs[k + 1]), -1, <<fs[k + 1].ty>>>>)>>
                      ELSE <<>>
            [] OTHER -> <<>>
Chain ==
  /\ ph = "done" /\ todo = <<>>
  /\ LET os == Append(outs, Outcome1)  nx == ChainNext(ChainOf(os)) IN
     /\ nx # <<>>
     /\ Say1 /\ outs' = os /\ Load(nx[1])
     /\ hist' = <<>> /\ idle' = 0 /\ UNCHANGED <<start, todo>>
LastOne ==
  /\ ph = "done"
  /\ todo = <<>> => ChainNext(ChainOf(Append(outs, Outcome1))) = <<>>
  /\ NextCase
SNext == SBegin \/ RunStep \/ Chain \/ LastOne \/ Ended

----------------------------------------------------------------------------
Whole0 == outs[1]
NoLabels(ts) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.sp = ""]]
(* sequences are wrapped by their labels too                                   *)
NoWraps(ts) == [i \in 1..Len(ts) |-> IF ts[i].k = "end" THEN [ts[i] EXCEPT !.s = "", !.e = <<>>] ELSE ts[i]]
Bare1(ts) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].i = <<>>]
Same(a, b) == a.res = b.res /\ a.toks = b.toks
Alone == AtEnd => Same(outs[2], Whole0)
HintsOnlyLabel ==
  AtEnd => /\ outs[3].res = Whole0.res
           /\ Whole0.res.st = "ok" => NoWraps(NoLabels(outs[3].toks)) = NoWraps(NoLabels(Whole0.toks))
RECURSIVE Joined(_, _)
Joined(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Joined(ss, i + 1)
IsItem(o) == o.case.entry = "dwt"
PartOf(i, o) ==       \* what item o, number i of the chain, adds to the whole
  CASE TX.def = "Variant" -> <<TField(TX.variants[PickedNo].fields[i])>> \o o.toks
    [] ~IsItem(o) -> <<>>
    [] TX.def = "Composite" -> <<TField(TX.fields[i \div 2])>> \o o.toks
    [] TX.def = "Tuple" -> o.toks
    [] OTHER -> Bare1(o.toks)
PartsMakeTheWhole ==
  AtEnd =>
    LET ch == ChainOf(outs)
        k == Len(ch)
        w == Whole0
        end == IF TX.def \in {"Sequence", "Array"} THEN <<w.toks[Len(w.toks)]>> ELSE <<>>
        parts == Joined([i \in 1..k |-> PartOf(i, ch[i])], 1)
    IN ~Known =>
         /\ (k > 0 /\ ch[k].res.st = "err") => w.res.st = "err" /\ w.res.e = ch[k].res.e
         /\ (k > 0 /\ ch[k].res.st = "ok") =>
              /\ w.res.st = "ok"
              /\ PosAfter(ch) # -1 => w.res.pos = PosAfter(ch)
              /\ TX.def = "Compact" => Bare1(w.toks) = Bare1(ch[1].toks)
              /\ TX.def # "Compact" => w.toks = <<w.toks[1]>> \o parts \o end
         /\ (w.res.st = "err" /\ TX.def \in {"Composite", "Tuple", "Array", "Compact"}) => (k > 0 /\ ch[k].res.st = "err") \/ (TX.def = "Tuple" /\ w.res.e.k = "TypeNotResolved")
Husked ==        \* nothing more to see through; not more than one compact
  AtEnd => LET o == outs[4] IN
    o.res.st = "ok" =>
      LET t == start.m.reg[o.res.x[1] + 1] IN
      /\ Hinted(t) # "None" \/ ~((t.def = "Composite" /\ Len(t.fields) = 1) \/ t.def = "Compact")
      /\ start.x \in {o.res.x[6][i] : i \in 1..Len(o.res.x[6])} /\ o.res.x[1] \in {o.res.x[6][i] : i \in 1..Len(o.res.x[6])}
KnownAs ==
  AtEnd => LET s == outs[5].res  w == Whole0 IN
    /\ s.st = "ok" /\ s.pos \in {P0, P0 + 1}
    /\ s.pos = P0 + 1 => s.x[2] # "None" /\ s.x[1] \in {"Call", "Event", "MultiSignature"}
    /\ (w.res.st = "ok" /\ s.x[2] # "None") =>
         LET t == w.toks[1] IN
         IF s.x[2] = "Call" THEN t.k = "call" /\ t.t = <<s.x[3]>> ELSE IF s.x[2] = "Event" THEN t.k = "event" /\ t.t = <<s.x[3]>>
         ELSE t.k = "leaf" /\ t.s = s.x[2]
Description == AtEnd => LET i == outs[6].res.x IN i[2] = (i[1][1] = [d |-> "", p |-> <<>>]) /\ (Len(i[3]) = 0) = (i[1][1].d = "")
Stepped ==
  AtEnd =>
    LET w == Whole0  o == outs[12].res IN
    CASE Known -> TRUE
      [] TX.def = "Variant" /\ Len(TX.variants) > 0 ->
           /\ o.st = "err" => w.res.st = "err" /\ w.res.e = o.e
           /\ o.st = "ok" => o.pos = P0 /\ TX.variants[o.x[1]].ix = start.data[P0 + 1]
                             /\ \A i \in 1..(o.x[1] - 1) : TX.variants[i].ix # start.data[P0 + 1]
                             /\ w.res.st = "ok" => w.toks[1].s = TX.variants[o.x[1]].name
           /\ outs[13].res.st = "err"
      [] TX.def = "BitSequence" ->
           /\ o.st = "err" => w.res.st = "err" /\ w.res.e = o.e
           /\ w.res.st = "ok" =>
                \E i \in 13..16 : /\ outs[i].res.x = <<PairOfInt(w.res.pos)>>
                                  /\ w.toks[1].s = "BitVec" \o <<"U8", "U16", "U32", "U64">>[i - 12] \o o.x[1]
           /\ \A i \in 13..15 : outs[i].res.st = "ok" => PairInt(outs[i].res.x[1]) <= PairInt(outs[i + 1].res.x[1])
      [] TX.def = "Primitive" /\ TX.path = <<>> ->
           /\ o = w.res /\ Bare1(outs[12].toks) = Bare1(w.toks)
      [] OTHER -> TRUE
Independent ==      \* a hint names one kind of value, and is kept for tips with assets only
  AtEnd => LET x == outs[8].res.x IN
    /\ Cardinality({i \in 1..3 : x[i] # "None"}) <= 1
    /\ x[6] \in {"None", "ChargeAssetTxPayment"} /\ x[11] = <<>>
=============================================================================
