------------------------------- MODULE MCCards -------------------------------
(***************************************************************************)
(* Cards: the card writer reads tokens one after the other; here the same is   *)
(* said of the whole value at once, as a tree: how each kind of part is        *)
(* announced, what follows it and how deep.  Both have to agree on all values  *)
(* of the composed registries.                                                 *)
(***************************************************************************)
EXTENDS Compose, Cards
VARIABLE cards

Types ==
  <<Prim("U8"), Prim("U16"), Tup(<<>>), Comb(1), Comp(<<Fd(1, <<"value">>, <<"Balance">>)>>), Comp(<<Fp(4)>>),
    Comp(<<Fd(0, <<"nonce">>, <<>>), Fp(4)>>), Comp(<<>>), Vari(<<>>), Vari(<<Vr("A", 0, <<>>), Vr("B", 1, <<Fp(6)>>), Vr("C", 2, <<Fp(0), Fd(3, <<"tip">>, <<>>)>>),
                                                                    Vr("D", 3, <<Fd(11, <<"inner">>, <<>>)>>)>>),
    SeqOf(0), SeqOf(10), SeqOf(6), SeqOf(3), Tup(<<0, 9>>), Arr(0, 3), Arr(14, 2), Prim("Str"), Tup(<<12, 2, 8>>),
    At0(Vari(<<Vr("pay", 0, <<Fd(1, <<"value">>, <<"Balance">>)>>), Vr("none", 1, <<>>), Vr("raw", 2, <<Fp(5)>>), Vr("two", 3, <<Fd(4, <<"x">>, <<>>), Fp(10)>>)>>), <<"p", "pallet", "Call">>),
    At0(Vari(<<Vr("Balances", 0, <<Fp(19)>>), Vr("Staking", 1, <<Fp(19)>>), Vr("Other", 2, <<Fp(19)>>)>>), <<"rt", "RuntimeCall">>),
    SeqOf(20), Comp(<<Fd(20, <<"call">>, <<>>), Fd(4, <<>>, <<>>)>>), Prim("Bool"), Comp(<<Fp(25)>>), Comp(<<Fd(15, <<>>, <<"Bytes">>)>>), SeqOf(24),
    At0(Comp(<<>>), <<"bitvec", "order", "Msb0">>), Bits(27, 0), Prim("Char"), Prim("I16"), Arr(0, 0), Arr(7, 2), Comp(<<Fp(9), Fp(9)>>),
    At0(Comp(<<Fp(35)>>), <<"primitive_types", "H256">>), Arr(0, 32), At0(Vari(<<>>), <<"sp_runtime", "generic", "era", "Era">>),
    Tup(<<12, 0, 6>>), Comp(<<Fd(14, <<"a">>, <<>>), Fd(4, <<"b">>, <<>>), Fp(13)>>)>>
DocsNo(k) == <<"d" \o ToString(k)>>
FieldDocs(fs, k) == [j \in 1..Len(fs) |-> [fs[j] EXCEPT !.docs = IF (k + j) % 3 = 0 THEN <<>> ELSE DocsNo(100 * k + j)]]
TypeNo(t, i) ==
  LET t1 == [t EXCEPT !.docs = IF i % 2 = 0 THEN DocsNo(i) ELSE <<>>]
      t2 == IF t.path = <<>> /\ i % 3 # 0 THEN [t1 EXCEPT !.path = <<"m", "T" \o ToString(i)>>] ELSE t1
  IN CASE t.def = "Composite" -> [t2 EXCEPT !.fields = FieldDocs(@, i)]
       [] t.def = "Variant" -> [t2 EXCEPT !.variants = [j \in 1..Len(@) |-> [@[j] EXCEPT !.docs = DocsNo(10 * i + j), !.fields = FieldDocs(@, 10 * i + j)]]]
       [] OTHER -> t2
RegNo(how) == IF how = 0 THEN Types ELSE [i \in 1..Len(Types) |-> TypeNo(Types[i], i)]
Settings == <<[prefix |-> 42, dec |-> 3, unit |-> "UN", name |-> "ch", bal |-> FALSE], [prefix |-> 0, dec |-> 0, unit |-> "U", name |-> "c", bal |-> TRUE]>>
(* Strings: values of the type by random walk over all bytes are rare; so the   *)
(* encodings are put together: a list of bytes by number.                       *)
RECURSIVE BytesNo(_, _)
Small == <<0, 1, 2, 3, 4, 8, 66, 200>>
BytesNo(n, k) == IF k = 0 THEN <<>> ELSE <<Small[(n % 8) + 1]>> \o BytesNo(n \div 8, k - 1)
NTypes == Len(Types)
(* the types with most to say come up most often                                *)
TyNo(n) == LET t == n % NTypes IN
           IF (t \in {0, 1, 2, 3, 4, 5, 7, 8, 15, 23, 34, 35, 31} \/ t \in 27..30) /\ Mix(n) % 6 # 0
           THEN <<9, 20, 21, 22, 37, 20, 12, 38>>[(Mix(n) % 8) + 1] ELSE t
NStarts == NTypes * 2 * 2 * 4096
Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
(* what to parse: the first k bytes that are accepted, so with "at"             *)
CInit == /\ PickInit /\ card = CardIdle /\ cards = <<>>
         /\ \E n \in Starts : start = [n |-> n, ty |-> TyNo(n), how |-> (n \div NTypes) % 2, set |-> ((n \div (2 * NTypes)) % 2) + 1,
                                       data |-> BytesNo(n \div (4 * NTypes), 4) \o BytesNo(Mix(n), 6) \o Zeros(28)]
CBegin ==
  /\ ph = "pick"
  /\ RunAll(<<[ACase(MetaWith(RegNo(start.how)), "at", <<start.data>>, 0, start.ty) EXCEPT !.card = <<Settings[start.set]>>]>>)
  /\ UNCHANGED <<card, cards>>
Set == Settings[start.set]
WriteStart ==
  /\ ph = "end" /\ ~card.on /\ outs[1].res.st = "ok"
  /\ CardStart(Set.bal) /\ UNCHANGED <<mvars, cards>>
WriteMore ==
  /\ ph = "end" /\ CardStep(outs[1].toks, Set)
  /\ cards' = cards \o card'.out /\ UNCHANGED mvars
Stop == ph = "end" /\ (outs[1].res.st # "ok" \/ CardsFinished(outs[1].toks)) /\ UNCHANGED <<mvars, card, cards>>
CNext == CBegin \/ ((RunStep \/ NextCase) /\ UNCHANGED <<card, cards>>) \/ WriteStart \/ WriteMore \/ Stop
CSpec == CInit /\ [][CNext]_<<mvars, card, cards>>
----------------------------------------------------------------------------
(* The value as a tree: [t token, kids <<[f field token or none, v tree]>>,     *)
(* w the form of a sequence, e its element info at the end, next].              *)
Ts == outs[1].toks
RECURSIVE TreeAt(_), PartsAt(_, _, _), TillEnd(_)
Node(t, kids, w, e, next) == [t |-> t, kids |-> kids, w |-> w, e |-> e, next |-> next]
TreeAt(i) ==
  LET t == Ts[i] IN
  CASE t.k \in {"leaf", "emptyenum"} -> Node(t, <<>>, "", <<>>, i + 1)
    [] t.k \in {"comp", "var", "call", "event"} -> LET r == PartsAt(i + 1, t.n, TRUE) IN Node(t, r.kids, "", <<>>, r.next)
    [] t.k = "tuple" -> LET r == PartsAt(i + 1, t.n, FALSE) IN Node(t, r.kids, "", <<>>, r.next)
    [] t.k = "seq" -> LET r == TillEnd(i + 1) IN Node(t, r.kids, Ts[r.next].s, Ts[r.next].e, r.next + 1)
PartsAt(i, n, named) ==
  IF n = 0 THEN [kids |-> <<>>, next |-> i]
  ELSE LET f == IF named THEN <<Ts[i]>> ELSE <<>>
           v == TreeAt(IF named THEN i + 1 ELSE i)
           r == PartsAt(v.next, n - 1, named)
       IN [kids |-> <<[f |-> f, v |-> v]>> \o r.kids, next |-> r.next]
TillEnd(i) ==
  IF Ts[i].k = "end" THEN [kids |-> <<>>, next |-> i]
  ELSE LET v == TreeAt(i)  r == TillEnd(v.next) IN [kids |-> <<[f |-> <<>>, v |-> v]>> \o r.kids, next |-> r.next]

(* How a tree is shown at indent d; bal: amounts with unit; pre: what is known  *)
(* from wrappers left out; es: element info given from outside, if any.         *)
RECURSIVE Shown(_, _, _, _, _), ShownParts(_, _, _, _)
FieldLines(t, d, bal, pre, at) ==      \* at: indent for a lone unnamed part
  IF Len(t.kids) = 0 THEN <<>>
  ELSE IF Len(t.kids) = 1 /\ t.kids[1].f[1].t = <<>>
       THEN Shown(t.kids[1].v, at, bal, pre \o DocsInfo(t.kids[1].f[1].d), <<>>)
  ELSE ShownParts(t.kids, 1, d, bal)
ShownParts(ks, i, d, bal) ==
  IF i > Len(ks) THEN <<>>
  ELSE LET f == ks[i].f[1] IN
       <<Line(d, IF f.t = <<>> THEN "Field Number" ELSE "Field Name", IF f.t = <<>> THEN ToString(i) ELSE f.t[1], DocsInfo(f.d))>>
       \o Shown(ks[i].v, d + 1, bal, <<>>, <<>>) \o ShownParts(ks, i + 1, d, bal)
RECURSIVE Each(_, _, _, _, _)
Each(ks, i, d, bal, es) == IF i > Len(ks) THEN <<>> ELSE Shown(ks[i].v, d, bal, <<>>, es) \o Each(ks, i + 1, d, bal, es)
AsBytes(t) == [i \in 1..Len(t.kids) |-> t.kids[i].v.t.v[1]]
Shown(t, d, bal, pre, es) ==
  LET tk == t.t
      info == pre \o FlatInfos(tk.i)
  IN
  CASE tk.k = "leaf" -> LET x == LeafText(tk, bal, Set) IN
                       <<[Line(d, x[1], x[2], info) EXCEPT !.x = IF tk.s \in Keys THEN Hex(tk.v) ELSE ""]>>
    [] tk.k = "emptyenum" -> <<Written(d, "Enum With No Variants", info, <<>>, "")>>
    [] tk.k = "comp" ->
         (IF Len(t.kids) > 1 \/ (Len(t.kids) = 1 /\ t.kids[1].f[1].t # <<>>)
          THEN <<Line(d, "Struct", ToString(Len(t.kids)) \o " field(s)", info)>> ELSE <<>>)
         \o FieldLines(t, d + 1, bal, info, d)
    [] tk.k = "var" ->
         <<Written(d, "Enum", info, <<>>, ""), Line(d + 1, "Enum Variant Name", tk.s, DocsInfo(tk.d))>> \o FieldLines(t, d + 2, bal, <<>>, d + 2)
    [] tk.k \in {"call", "event"} ->
         <<Line(d, "Pallet", tk.t[1], <<FlatInfo(tk.e[1])>>), Line(d + 1, IF tk.k = "call" THEN "Call" ELSE "Event", tk.s, DocsInfo(tk.d))>>
         \o FieldLines(t, d + 2, tk.t[1] \in {"Balances", "Staking"}, <<>>, d + 2)
    [] tk.k = "tuple" ->
         IF Len(t.kids) = 0 THEN <<>>
         ELSE <<Line(d, "Tuple", ToString(Len(t.kids)) \o " element(s)", info)>> \o Each(t.kids, 1, d + 1, bal, <<>>)
    [] tk.k = "seq" ->
         LET el == FlatInfos(IF es # <<>> THEN es[1] ELSE tk.e) IN
         IF es # <<>> \/ t.w = "U8"
         THEN <<Written(d, IF Utf8(AsBytes(t)) THEN "Text: " \o Utf8Str(AsBytes(t)) ELSE "Sequence u8: " \o Hex(AsBytes(t)), info, el, Hex(AsBytes(t)))>>
         ELSE <<Written(d, "Sequence: " \o ToString(Len(t.kids)) \o " element(s)", info, el, "")>>
              \o Each(t.kids, 1, d + 1, bal, IF t.w = "VecU8" THEN <<t.e>> ELSE <<>>)
Finale == ph = "end" /\ outs[1].res.st = "ok" /\ CardsFinished(Ts)
SameCards == Finale => cards = Shown(TreeAt(1), 0, Set.bal, <<>>, <<>>)
(* Nothing is lost: each value's text is on a line, in order.                   *)
Leaves == SelectSeq(Ts, LAMBDA t : t.k = "leaf")
EndsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b
RECURSIVE InOrder0(_, _)
InOrder0(i, j) == IF i > Len(Leaves) THEN TRUE
                  ELSE \E k \in j..Len(cards) : (\E b \in {TRUE, FALSE} : EndsWith(cards[k].c, LeafText(Leaves[i], b, Set)[2])) /\ InOrder0(i + 1, k + 1)
NoBytes == \A i \in 1..Len(Ts) : Ts[i].k = "seq" => \A j \in 1..Len(Ts) : (Ts[j].k = "end" => Ts[j].s \notin {"U8", "VecU8"})
NothingLost == Finale /\ NoBytes => InOrder0(1, 1)
Indents == Finale => \A i \in 1..Len(cards) : cards[i].i >= 0 /\ (i = 1 => cards[i].i = 0) /\ (i > 1 => cards[i].i <= cards[i - 1].i + 1)
Shapes0 == CardsShape
=============================================================================
