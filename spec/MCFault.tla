------------------------------- MODULE MCFault -------------------------------
(***************************************************************************)
(* Memory that fails: every case runs once on good memory and then, in every  *)
(* way the specification allows, on memory that fails at one access or from   *)
(* one on. What fails is said; what does not fail is the same.                *)
(***************************************************************************)
EXTENDS MCTx

More == <<At0(Vari(<<Vr("Sr", 1, <<Fd(21, <<>>, <<>>)>>), Vr("N", 2, <<Fp(0)>>)>>), <<"sp_runtime", "MultiSignature">>),
          At0(Comp(<<Fp(5)>>), <<"sp_core", "sr25519", "Signature">>),
          SeqOf(7), Tup(<<0, 17, 7>>), Arr(12, 2), At0(Comp(<<>>), <<"bitvec", "order", "Lsb0">>), Bits(25, 0), SeqOf(10), Comb(12),
          At0(Vari(<<Vr("Ev", 0, <<Fp(6)>>)>>), <<"rt", "RuntimeEvent">>), Tup(<<0, 0>>)>>
(* numbers 20 on: MultiSignature, its part, and so on                          *)
FMeta(v) == LET m == MetaOf(<<Menu[1], Menu[2], Menu[3]>>, v) IN [m EXCEPT !.reg = @ \o More]
Items == <<<<20, <<1>>>>, <<20, <<2, 5>>>>, <<22, <<8, 0, 1, 9, 2, 3>>>>, <<23, <<1, 4, 0, 2, 4, 7>>>>, <<24, <<0, 0>>>>, <<24, <<1, 0, 5, 0>>>>,
           <<26, <<9, 1, 255>>>>, <<26, <<20, 7>>>>, <<27, <<8, 4, 9, 0>>>>, <<27, <<4, 8, 66, 67>>>>, <<28, <<4>>>>, <<7, <<0, 1, 9>>>>, <<6, <<2, 4, 3>>>>,
           <<8, <<4, 119, 1, 0, 0, 0>>>>, <<9, <<8, 65, 66>>>>, <<9, <<4, 255>>>>, <<29, <<0, 0>>>>, <<17, <<3, 1, 2, 3, 200>>>>, <<12, <<5, 0>>>>, <<3, HA>>>>
Txs == {<<k, o, v>> : k \in 1..Len(Calls), o \in {<<1, 1, 1, 1, 1, 1>>, <<1, 1, 1, 2, 1, 2>>}, v \in {14, 15}}
Entries1 == <<"tx", "dcall", "dext", "mark", "txu", "call", "ext">>
TxCase(i, t, list, flt) ==
  LET call == Calls[t[1]]
      ext == LET f(x) == Options(x[1])[x[2]] IN f(<<2, 1>>) \o f(<<2, 1>>) \o f(<<4, t[2][3]>>) \o f(<<1, 1>>) \o f(<<3, t[2][4]>>) \o f(<<3, t[2][6]>>)
      e == Entries1[i]
      data == CASE e \in {"tx", "dcall", "dext", "mark"} -> CompactEnc(U4(Len(call))) \o call \o ext
                [] e = "txu" -> call \o ext [] e = "call" -> call [] e = "ext" -> ext
  IN [ACase(FMeta(t[3]), e, <<data>>, 0, 0) EXCEPT !.flt = flt]
UxCase(k, b, v, flt) ==
  LET body == <<4 + b>> \o (IF b = 128 THEN <<9>> ELSE <<>>) \o Calls[k]
  IN [ACase(FMeta(v), "uxt", <<CompactEnc(U4(Len(body))) \o body>>, 0, 0) EXCEPT !.flt = flt]
Stores == <<<<<<"Blake2_128Concat">>, 0, <<7>>>>, <<<<"Identity", "Twox64Concat">>, 30, <<7>>>>, <<<<"Twox128">>, 17, <<>>>>, <<<<"Blake2_256", "Identity">>, 30, <<7>>>>>>
RECURSIVE StoreKey(_, _, _)
StoreKey(h, d, i) ==
  IF i > Len(h) THEN <<>>
  ELSE (IF Opaque(h[i]) THEN [j \in 1..HashLen(h[i]) |-> j] ELSE IF h[i] = "Identity" THEN d ELSE HashOf(h[i], d) \o d) \o StoreKey(h, d, i + 1)
StoreCase(i, val, flt) ==
  LET s == Stores[i]
      e == [plain |-> FALSE, h |-> s[1], key |-> s[2], val |-> 7, docs |-> <<"x">>]
  IN [ACase(FMeta(14), "storage", <<[j \in 1..32 |-> j] \o StoreKey(s[1], s[3], 1), val>>, 0, 0) EXCEPT !.st = <<e>>, !.flt = flt]
CmpCase(w, flt) == [ACase(FMeta(14), "cmp", <<<<3, 1, 2, 3, 200>>>>, 0, w) EXCEPT !.flt = flt]
Bit32Case(a, b, flt) == [ACase(FMeta(14), "bit32", <<CompactEnc(IntBytes(<<0, 3, 64, 65, 70>>[a], 2)) \o [j \in 1..(16 - b) |-> 7 * j]>>, 0, b % 2) EXCEPT !.flt = flt]
StepList == <<<<"pick", 20, <<1>>>>, <<"pick", 20, <<>>>>, <<"pick", 20, <<9>>>>, <<"husk", 28, <<>>>>, <<"husk", 22, <<>>>>, <<"husk", 40, <<>>>>, <<"order", 26, <<>>>>,
              <<"bvp", 1, <<9, 1, 255>>>>, <<"bvp", 8, <<253, 1>>>>, <<"bvp", 4, <<>>>>, <<"dwt", 22, <<8, 0, 1, 9, 2, 3>>>>, <<"dwt", 28, <<4>>>>, <<"dwt", 24, <<1, 0, 5, 0>>>>,
              <<"dwt", 40, <<1>>>>, <<"prim", 9, <<8, 65, 66>>>>, <<"prim", 9, <<12, 65>>>>>>
StepCase(i, p, flt) ==
  LET k == ACase(FMeta(14), StepList[i][1], <<IF p = 0 THEN StepList[i][3] ELSE <<7>> \o StepList[i][3]>>, p, StepList[i][2])
  IN [With(k, "FieldNonce", -1, <<0>>) EXCEPT !.flt = flt]
ItemCase(i, flt) == [ACase(FMeta(14), "all", <<Items[i][2]>>, 0, Items[i][1]) EXCEPT !.flt = flt]
Pieces ==
  {[k |-> "item", a |-> i, b |-> 0, c |-> 0] : i \in 1..Len(Items)}
  \cup {[k |-> "store", a |-> i, b |-> j, c |-> 0] : i \in 1..Len(Stores), j \in 1..3}
  \cup {[k |-> "uxt", a |-> i, b |-> j, c |-> v] : i \in 1..Len(Calls), j \in {0, 128, 1}, v \in {14, 15}}
  \cup {[k |-> "step", a |-> i, b |-> j, c |-> 0] : i \in 1..Len(StepList), j \in {0, 1}}
  \cup {[k |-> "cmp", a |-> w, b |-> 0, c |-> 0] : w \in {1, 4, 16}}
  \cup {[k |-> "bit32", a |-> i, b |-> j, c |-> 0] : i \in 1..5, j \in 0..9}
  \cup {[k |-> "tx", a |-> i, b |-> t[1], c |-> t[2] \o <<t[3]>>] : i \in 1..7, t \in Txs}
CaseOf(p, flt) ==
  CASE p.k = "item" -> ItemCase(p.a, flt)
    [] p.k = "store" -> StoreCase(p.a, <<<<0, 1, 9>>, <<0, 1>>, <<>>>>[p.b], flt)
    [] p.k = "uxt" -> UxCase(p.a, p.b, p.c, flt)
    [] p.k = "step" -> StepCase(p.a, p.b, flt)
    [] p.k = "cmp" -> CmpCase(p.a, flt)
    [] p.k = "bit32" -> Bit32Case(p.a, p.b, flt)
    [] p.k = "tx" -> TxCase(p.a, <<p.b, p.c, p.c[7]>>, <<>>, flt)
FInit == PickInit /\ \E p \in Pieces, flt \in {"all", "once"} : start = [n |-> p.a, p |-> p, flt |-> flt]
FNext == RunAll(<<CaseOf(start.p, ""), CaseOf(start.p, start.flt)>>) \/ RunStep \/ NextCase \/ Ended
FSpec == FInit /\ [][FNext]_mvars
----------------------------------------------------------------------------
Failed == outs[2]
Root(e) == e.k
Unharmed == AtEnd /\ ~Failed.hit /\ Failed.dev = "" /\ outs[1].dev = "" => Failed.res = outs[1].res /\ Failed.toks = outs[1].toks
SaysExternal(r) == (r.st = "err" /\ r.e.k \in {"External", "CutSignable", "FormatNoCompact"})
                   \/ (r.st = "ok" /\ r.cst = "err" /\ r.ce.k = "External")
Reported == AtEnd /\ Failed.hit /\ Failed.dev = "" => SaysExternal(Failed.res)
(* A framing error may stand for a failure only where framing is read.        *)
FramingOnly == AtEnd /\ Failed.hit /\ Failed.res.e.k \in {"CutSignable", "FormatNoCompact"} =>
                 Failed.case.entry \in Marked \cup {"uxt"} /\ Failed.toks = <<>>
(* What was said before the failure was right.                                *)
IsPrefix0(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
SaidRight == AtEnd /\ Failed.dev = "" /\ outs[1].dev = "" => IsPrefix0(Failed.toks, outs[1].toks)
(* An unsound run is one of the two recorded findings.                         *)
OnlyListed == AtEnd => \A i \in 1..2 : outs[i].dev \in {"", "uxt-tail", "detect-fault"}
=============================================================================
