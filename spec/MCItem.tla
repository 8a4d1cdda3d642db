------------------------------- MODULE MCItem -------------------------------
(***************************************************************************)
(* All small registries of two free types over a few fixed ones, all short   *)
(* byte strings: the machine accepts exactly the encodings of the type and   *)
(* says exactly the values they mean; no encoding is a prefix of another;    *)
(* bytes around make no difference; cycles end in an error.                  *)
(***************************************************************************)
EXTENDS Compose

(* 0 u8, 1 u16, 2 (), 3 Compact<u8>, 4 Lsb0, 5 bool; 6 and 7 are free,       *)
(* 8 does not exist                                                          *)
Base == <<Prim("U8"), Prim("U16"), Tup(<<>>), Comb(0), At0(Comp(<<>>), <<"bitvec", "order", "Lsb0">>), Prim("Bool")>>
R1 == <<0, 2, 3, 6, 7, 8>>
RefsFew == <<0, 3, 6, 7>>
Over(f(_)) == [i \in 1..Len(R1) |-> f(R1[i])]
OverFew(f(_)) == [i \in 1..Len(RefsFew) |-> f(RefsFew[i])]
Nonce == <<"nonce">>
Bal == <<"Balance">>
CallPath == <<"p", "pallet", "Call">>
Shapes ==
  Over(LAMBDA x : Comp(<<Fp(x)>>)) \o
  OverFew(LAMBDA x : Comp(<<Fd(x, Nonce, <<>>)>>)) \o
  OverFew(LAMBDA x : Comp(<<Fd(x, <<"a">>, Bal)>>)) \o
  OverFew(LAMBDA x : At0(Comp(<<Fp(x)>>), <<"frame", "ChargeAssetTxPayment">>)) \o
  Over(LAMBDA x : Comp(<<Fd(x, Nonce, <<>>), Fd(0, <<"b">>, <<>>)>>)) \o
  Over(LAMBDA x : Comp(<<Fd(3, <<"a">>, <<>>), Fd(x, <<"b">>, Bal)>>)) \o
  Over(LAMBDA x : Comp(<<Fp(2), Fp(x)>>)) \o
  OverFew(LAMBDA x : Comp(<<Fp(x), Fp(x)>>)) \o
  Over(LAMBDA x : Tup(<<x>>)) \o
  Over(LAMBDA x : Tup(<<x, 0>>)) \o
  OverFew(LAMBDA x : Tup(<<7, x>>)) \o
  OverFew(LAMBDA x : SeqOf(x)) \o
  <<SeqOf(5), SeqOf(1), SeqOf(8)>> \o
  OverFew(LAMBDA x : Arr(x, 1)) \o
  OverFew(LAMBDA x : Arr(x, 2)) \o
  <<Arr(0, 0), Arr(3, 0), Arr(1, 1), Arr(2, 2)>> \o
  Over(LAMBDA x : Comb(x)) \o
  <<Comb(1), Comb(5), Comb(4)>> \o
  Over(LAMBDA x : Vari(<<Vr("A", 0, <<>>), Vr("B", 1, <<Fp(x)>>)>>)) \o
  OverFew(LAMBDA x : Vari(<<Vr("A", 4, <<Fd(x, Nonce, <<>>)>>), Vr("B", 4, <<Fp(5)>>), Vr("C", 0, <<Fp(x), Fp(0)>>)>>)) \o
  OverFew(LAMBDA x : Vari(<<Vr("A", 1, <<Fp(7), Fp(x)>>), Vr("B", 255, <<>>)>>)) \o
  OverFew(LAMBDA x : At0(Vari(<<Vr("P", 0, <<Fp(x)>>), Vr("Q", 1, <<Fp(7), Fp(0)>>)>>), <<"rt", "Call">>)) \o
  OverFew(LAMBDA x : At0(Vari(<<Vr("c0", 0, <<>>), Vr("c1", 1, <<Fd(x, <<"value">>, Bal)>>)>>), CallPath)) \o
  <<Vari(<<>>), Comp(<<>>), Prim("Str"), Prim("I8"), Prim("Bool"), Prim("U32"), Prim("Char"),
    Bits(4, 0), Bits(4, 1), Bits(4, 5), Bits(0, 0), Bits(8, 0), Bits(4, 8),
    At0(Comp(<<Fp(8)>>), <<"x", "Percent">>)>>

NShapes == Len(Shapes)
RegOf(i, j) == Base \o <<Shapes[i], Shapes[j]>>
(* Documented finding C14 (zero-sized): sequences of possibly empty elements  *)
(* are left out.                                                              *)
RECURSIVE MayBeEmpty(_, _, _)
MayBeEmpty(reg, id, seen) ==
  IF id \in seen \/ id >= Len(reg) THEN TRUE
  ELSE LET t == reg[id + 1]  s == seen \cup {id} IN
       CASE t.path # <<>> /\ t.path[Len(t.path)] = "Percent" -> FALSE
         [] t.def = "Composite" -> \A k \in 1..Len(t.fields) : MayBeEmpty(reg, t.fields[k].ty, s)
         [] t.def = "Tuple" -> \A k \in 1..Len(t.tys) : MayBeEmpty(reg, t.tys[k], s)
         [] t.def = "Array" -> t.len = <<0, 0>> \/ MayBeEmpty(reg, t.ty, s)
         [] t.def = "Compact" -> MayBeEmpty(reg, t.ty, s)
         [] t.def = "Variant" -> Len(t.variants) = 0
         [] OTHER -> FALSE
Tame(reg) == \A i \in 1..Len(reg) :
               reg[i].def = "Sequence" => ~MayBeEmpty(reg, reg[i].ty, {})

Alphabet0 == {0, 1, 4, 5, 8, 255}
MaxLen == NumEnv("MCLEN", 3)
RECURSIVE StringsUpTo(_)
StringsUpTo(n) == IF n = 0 THEN {<<>>}
                  ELSE LET S == StringsUpTo(n - 1)
                       IN S \cup {Append(x, a) : x \in {y \in S : Len(y) = n - 1}, a \in Alphabet0}
Strings == StringsUpTo(MaxLen)

(* The same registry with descriptions added everywhere (by number), and with *)
(* everything taken away that gives a label.                                  *)
DocsNo(k) == <<"d" \o ToString(k)>>
TypeNo(t, i, how) ==
  LET fields(fs, k) == [j \in 1..Len(fs) |-> [fs[j] EXCEPT !.docs = DocsNo(100 * k + j)]]
      t1 == IF how % 2 = 1 THEN [t EXCEPT !.docs = DocsNo(i)] ELSE t
      t2 == IF how \div 2 # 0 /\ t.path = <<>> THEN [t1 EXCEPT !.path = <<"m", "T" \o ToString(i)>>] ELSE t1
  IN CASE how # 0 /\ t.def = "Composite" -> [t2 EXCEPT !.fields = fields(@, i)]
       [] how # 0 /\ t.def = "Variant" ->
            [t2 EXCEPT !.variants = [j \in 1..Len(@) |-> [@[j] EXCEPT !.docs = DocsNo(10 * i + j), !.fields = fields(@, 10 * i + j)]]]
       [] OTHER -> t2
Decorated(reg, how) == [i \in 1..Len(reg) |-> TypeNo(reg[i], i, how)]
Bald(reg) ==
  LET plain(fs) == [j \in 1..Len(fs) |-> [fs[j] EXCEPT !.name = <<>>, !.tn = <<>>]] IN
  [i \in 1..Len(reg) |->
     LET t == IF HintOfPath(reg[i]) # "None" THEN [reg[i] EXCEPT !.path = <<>>] ELSE reg[i] IN
     CASE t.def = "Composite" -> [t EXCEPT !.fields = plain(@)]
       [] t.def = "Variant" -> [t EXCEPT !.variants = [j \in 1..Len(@) |-> [@[j] EXCEPT !.fields = plain(@)]]]
       [] OTHER -> t]

Starts == {n \in 0..(NShapes * NShapes - 1) : Drawn(n) /\
             Tame(RegOf((n \div NShapes) + 1, (n % NShapes) + 1))}
Init == /\ PickInit
        /\ \E n \in Starts :
             LET reg == RegOf((n \div NShapes) + 1, (n % NShapes) + 1) IN
             start = [n |-> n, m |-> MetaWith(Decorated(reg, (n + Seed) % 4)), bare |-> MetaWith(reg), bald |-> MetaWith(Bald(reg))]
(* The last case is the first again, as the meaning is that of its registry.  *)
Begin == \E b \in Strings :
          RunAll(<<ACase(start.m, "all", <<b>>, 0, 6), ACase(start.m, "at", <<<<4>> \o b \o <<1, 0>>>>, 1, 6),
                   ACase(start.bare, "all", <<b>>, 0, 6), ACase(start.bald, "all", <<b>>, 0, 6),
                   ACase(start.m, "at", <<b>>, 0, 6)>>)
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
B0 == outs[1].case.bufs[1]
(* C01: accepted exactly if it means something, and then exactly that.       *)
SaysWhatItMeans ==
  AtEnd => LET M == Meanings(6, B0) IN
           IF outs[1].res.st = "ok" THEN M = {AbsAll(outs[1].toks, 1)} ELSE M = {}
(* C02: no encoding is the beginning of another; surroundings do not matter. *)
PrefixFree ==
  AtEnd /\ outs[1].res.st = "ok" => \A k \in 0..(Len(B0) - 1) : Meanings(6, First(B0, k)) = {}
Elsewhere ==
  AtEnd /\ outs[1].res.st = "ok" =>
    /\ outs[2].res.st = "ok" /\ outs[2].res.pos = 1 + Len(B0) /\ outs[2].toks = outs[1].toks
(* C09: without anything that gives labels the values are the same.           *)
RECURSIVE Unlabelled(_, _)
Unlabelled(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE <<[ts[i] EXCEPT !.sp = "", !.t = IF ts[i].k = "field" THEN <<>> ELSE @, !.v = IF ts[i].k = "field" THEN <<>> ELSE @,
           !.s = IF ts[i].k = "end" THEN "" ELSE @, !.i = <<>>, !.e = <<>>, !.d = "", !.g = <<>>]>> \o Unlabelled(ts, i + 1)
LabelsChangeNothing ==
  AtEnd => /\ outs[4].res.st = outs[3].res.st /\ outs[4].res.e = outs[3].res.e /\ outs[4].res.pos = outs[3].res.pos
           /\ outs[4].res.st = "ok" => Unlabelled(outs[4].toks, 1) = Unlabelled(outs[3].toks, 1)
(* C19: descriptions change nothing but what is described.                    *)
RECURSIVE Plain(_, _)
Plain(ts, i) == IF i > Len(ts) THEN <<>> ELSE <<[ts[i] EXCEPT !.i = <<>>, !.e = <<>>, !.d = ""]>> \o Plain(ts, i + 1)
RECURSIVE VecEnds(_, _)
VecEnds(ts, i) == IF i > Len(ts) THEN <<>>
                  ELSE <<IF ts[i].k = "end" /\ ts[i].s = "VecU8" THEN [ts[i] EXCEPT !.s = "raw"] ELSE ts[i]>> \o VecEnds(ts, i + 1)
DescriptionsChangeNothing ==
  AtEnd => /\ outs[3].res = outs[1].res
           /\ VecEnds(Plain(outs[3].toks, 1), 1) = VecEnds(Plain(outs[1].toks, 1), 1)
(* C03: an error of the data names a place inside it.                        *)
DataErrors == {"DataTooShort", "NoCompact", "TypeFailure", "UnexpectedEnumVariant", "SomeDataNotUsedBlob"}
PlaceOfError ==
  AtEnd /\ outs[1].res.st = "err" /\ outs[1].res.e.k \in DataErrors =>
    outs[1].res.e.p \in 0..Len(B0)
(* A left-over is reported just after a complete value.                      *)
LeftOver ==
  AtEnd /\ outs[1].res.e.k = "SomeDataNotUsedBlob" =>
    outs[1].res.e.p < Len(B0) /\ Meanings(6, First(B0, outs[1].res.e.p)) # {}
(* C14: what the error says about the registry is so.                        *)
RECURSIVE Reach(_, _)
Reach(S, n) ==
  IF n = 0 THEN S
  ELSE Reach(S \cup UNION {IF ~Resolvable(i) THEN {} ELSE LET t == Ty(i) IN
         CASE t.def = "Composite" -> {t.fields[k].ty : k \in 1..Len(t.fields)}
           [] t.def = "Tuple" -> {t.tys[k] : k \in 1..Len(t.tys)}
           [] t.def = "Variant" -> UNION {{t.variants[v].fields[k].ty : k \in 1..Len(t.variants[v].fields)} :
                                          v \in 1..Len(t.variants)}
           [] t.def \in {"Sequence", "Array", "Compact"} -> {t.ty}
           [] t.def = "BitSequence" -> {t.order, t.store}
           [] OTHER -> {} : i \in S}, n - 1)
RegistryErrors ==
  AtEnd /\ outs[1].res.st = "err" =>
    LET e == outs[1].res.e IN
    /\ e.k = "TypeNotResolved" => ~Resolvable(e.p) /\ e.p \in Reach({6}, 8)
    /\ e.k = "CyclicMetadata" => e.p \in Reach({6}, 8) /\ (Resolvable(e.p) =>
         e.p \in UNION {Reach({j}, 8) : j \in Reach({e.p}, 1) \ {e.p}}
         \/ \E t \in {Ty(e.p)} : e.p \in (CASE t.def = "Composite" -> {t.fields[k].ty : k \in 1..Len(t.fields)}
              [] t.def = "Tuple" -> {t.tys[k] : k \in 1..Len(t.tys)}
              [] t.def \in {"Sequence", "Array", "Compact"} -> {t.ty} [] OTHER -> {}))
=============================================================================
