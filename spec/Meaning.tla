------------------------------- MODULE Meaning -------------------------------
(***************************************************************************)
(* What a type means, said without any parser: the values of a type whose    *)
(* encoding is exactly a given byte string, by structural recursion over the *)
(* type and all ways to split the bytes between its parts.  The numbers come *)
(* from the encoder (CompactEnc), never from the decoder.  The machine of    *)
(* Parser.tla has to accept exactly these strings and say these values.      *)
(***************************************************************************)
EXTENDS Entries

(* A token without the bytes it stands for.                                  *)
Abs(tk) == [tk EXCEPT !.g = <<>>]
RECURSIVE AbsAll(_, _)
AbsAll(ts, i) == IF i > Len(ts) THEN <<>> ELSE <<Abs(ts[i])>> \o AbsAll(ts, i + 1)
MTok(k, n, s, t, v) == <<Tok(k, n, s, t, "", v, "", <<>>, <<>>, <<>>)>>
MLeaf(ty, v, sp) == <<[MTok("leaf", 0, ty, <<>>, v)[1] EXCEPT !.sp = sp]>>
MDocs(tok, d) == <<[tok[1] EXCEPT !.d = JoinStr(d, "\n")]>>
MField(f) == MDocs(MTok("field", 0, "", f.name, f.tn), f.docs)
(* The first token of a value carries the descriptions of the types that led  *)
(* to it; a type without path and docs has none.                              *)
Said1(t) == IF t.path = <<>> /\ JoinStr(t.docs, "\n") = "" THEN <<>> ELSE <<[d |-> JoinStr(t.docs, "\n"), p |-> t.path]>>
Described(X, i) == {<<[x[1] EXCEPT !.i = i]>> \o Tail(x) : x \in X}

RECURSIVE NumberOf(_)
NumberOf(b) == IF Len(b) = 0 THEN 0 ELSE b[1] + 256 * NumberOf(Tail(b))
(* The number a string would stand for if it were a compact encoding, by its  *)
(* form alone; it is one exactly if the encoder writes that string.           *)
Candidate(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] % 4 = 3 THEN Tail(b)
  ELSE LET x == b \o Zeros(4) IN
       <<(x[1] \div 4) + ((x[2] % 4) * 64), (x[2] \div 4) + ((x[3] % 4) * 64), (x[3] \div 4) + ((x[4] % 4) * 64), x[4] \div 4>>
EncodedBy(b) == IF b # <<>> /\ Len(b) <= 17 /\ CompactEnc(Candidate(b)) = b THEN {Trim(Candidate(b))} ELSE {}
CompactsOf(b, w) == {PadTo(v, w) : v \in {x \in EncodedBy(b) : Len(x) <= w}}
Counts(b) == {NumberOf(v) : v \in {x \in EncodedBy(b) : Len(x) <= 3}}

First(b, k) == SubSeq(b, 1, k)
Rest(b, k) == SubSeq(b, k + 1, Len(b))

(* The bits of a number in store elements of sb bytes.                        *)
BitsOf(b, n, sb, order) ==
  [i \in 1..n |->
     LET e == (i - 1) \div (8 * sb)
         j == (i - 1) % (8 * sb)
         at == IF order = "Lsb0" THEN j ELSE 8 * sb - 1 - j       \* of the number
     IN (b[e * sb + (at \div 8) + 1] \div Pow2(at % 8)) % 2]

(* The eras a string denotes, from all eras there are: period 2^k, and a      *)
(* phase below it in steps of period/4096 (at least 1), 12 bits of it kept.   *)
EraStep(k) == IF k > 12 THEN Pow2(k - 12) ELSE 1
ErasOf(b) ==
  IF b = <<0>> THEN {<<>>}
  ELSE IF Len(b) # 2 THEN {}
  ELSE LET k == (b[1] % 16) + 1
           p == ((b[1] + 256 * b[2]) \div 16) * EraStep(k)
       IN IF k >= 2 /\ p < Pow2(k) THEN {<<Pow2(k), p>>} ELSE {}

(* How short and how long an encoding of a type can be at all, as far as its  *)
(* outer d levels tell: ways to split that cannot work need not be tried.     *)
Endless == 999
RECURSIVE Span(_, _, _), SpanSum(_, _, _, _), SpanMax(_, _, _)
SpanSum(tys, i, cmp, d) ==
  IF i > Len(tys) THEN <<0, 0>>
  ELSE LET a == Span(tys[i], cmp, d)  b == SpanSum(tys, i + 1, cmp, d)
       IN <<a[1] + b[1], IF a[2] + b[2] > Endless THEN Endless ELSE a[2] + b[2]>>
PartTys(fs) == [i \in 1..Len(fs) |-> fs[i].ty]
SpanMax(vs, i, d) ==
  IF i > Len(vs) THEN <<Endless, 0>>
  ELSE LET a == SpanSum(PartTys(vs[i].fields), 1, FALSE, d)  b == SpanMax(vs, i + 1, d)
       IN <<IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[2] > b[2] THEN a[2] ELSE b[2]>>
Span(id, cmp, d) ==
  IF d = 0 \/ ~Resolvable(id) THEN <<0, Endless>>
  ELSE LET t == Ty(id)  h == Hinted(t) IN
  IF h # "None" THEN <<0, Endless>>
  ELSE CASE t.def = "Primitive" ->
              IF cmp THEN <<1, 17>> ELSE IF t.prim = "Bool" THEN <<1, 1>> ELSE IF t.prim = "Str" THEN <<1, Endless>>
              ELSE IF t.prim = "Char" THEN <<4, 4>>
              ELSE IF t.prim \in UintNames THEN <<UintWidth(t.prim), UintWidth(t.prim)>> ELSE <<FixedWidth(t.prim), FixedWidth(t.prim)>>
         [] t.def = "Composite" -> SpanSum(PartTys(t.fields), 1, cmp, d - 1)
         [] t.def = "Tuple" -> SpanSum(t.tys, 1, cmp, d - 1)
         [] t.def = "Compact" -> Span(t.ty, TRUE, d - 1)
         [] t.def = "Variant" -> IF Len(t.variants) = 0 THEN <<0, 0>>
                                 ELSE LET m == SpanMax(t.variants, 1, d - 1) IN <<m[1] + 1, IF m[2] + 1 > Endless THEN Endless ELSE m[2] + 1>>
         [] t.def = "Sequence" \/ t.def = "BitSequence" -> <<1, Endless>>
         [] OTHER -> <<0, Endless>>
(* ... with so many bytes for what comes after, if anything does.             *)
Splits(ty, b, cmp, after, last) ==
  LET s == Span(ty, cmp, 4) IN
  {k \in (IF last THEN {Len(b)} ELSE 0..(Len(b) - after)) : k >= s[1] /\ k <= s[2]}
RECURSIVE LeastOf(_, _, _)
LeastOf(parts, i, cmp) == IF i > Len(parts) THEN 0 ELSE Span(parts[i].ty, cmp, 4)[1] + LeastOf(parts, i + 1, cmp)

(* Parts of a product: [ty, hint, pre] with pre the tokens before the part.  *)
RECURSIVE Values(_, _, _, _, _, _), Products(_, _, _, _, _), Elements(_, _, _, _)
Products(parts, i, b, cmp, seen) ==
  IF i > Len(parts) THEN (IF b = <<>> THEN {<<>>} ELSE {})
  ELSE UNION {
    LET X == Values(parts[i].ty, First(b, k), cmp, parts[i].hint, seen, <<>>) IN
    IF X = {} THEN {}
    ELSE {parts[i].pre \o x \o y : x \in X, y \in Products(parts, i + 1, Rest(b, k), cmp, seen)} :
    k \in Splits(parts[i].ty, b, cmp, LeastOf(parts, i + 1, cmp), i = Len(parts))}

(* The element type, seen through structs of one field and one compact.      *)
RECURSIVE Bare(_, _, _, _, _)
Bare(id, hint, cmp, seen, info) ==
  IF ~Resolvable(id) \/ id \in seen THEN <<>>
  ELSE LET t == Ty(id)
           more == info \o Said1(t)
           found == <<[ty |-> id, hint |-> hint, cmp |-> cmp, info |-> more]>> IN
       IF Hinted(t) # "None" THEN found
       ELSE IF t.def = "Composite" /\ Len(t.fields) = 1
            THEN Bare(t.fields[1].ty, OrHint(hint, HintOfField(t.fields[1])), cmp, seen \cup {id}, more)
       ELSE IF t.def = "Compact" THEN (IF cmp THEN <<>> ELSE Bare(t.ty, hint, TRUE, seen \cup {id}, more))
       ELSE found
(* n elements, each as a value of its own; a set of sequences of values.     *)
Elements(el, n, b, seen) ==
  IF n = 0 THEN (IF b = <<>> THEN {<<>>} ELSE {})
  ELSE UNION {
    LET X == Described(Values(el.ty, First(b, k), el.cmp, el.hint, seen, <<>>), <<>>) IN
    IF X = {} THEN {}
    ELSE {<<x>> \o y : x \in X, y \in Elements(el, n - 1, Rest(b, k), seen)} :
    k \in Splits(el.ty, b, el.cmp, (n - 1) * Span(el.ty, el.cmp, 4)[1], n = 1)}
PlainNumber(x, w) == Len(x) = 1 /\ x[1].k = "leaf" /\ x[1].s = w /\ x[1].sp = "None"
SeqEnding(x, w) == x[1].k = "seq" /\ x[Len(x)].k = "end" /\ x[Len(x)].s = w
Form(xs) ==
  IF Len(xs) = 0 THEN "raw"
  ELSE IF \E w \in UintNames : \A i \in 1..Len(xs) : PlainNumber(xs[i], w)
       THEN CHOOSE w \in UintNames : PlainNumber(xs[1], w)
  ELSE IF SeqEnding(xs[1], "U8") /\ \A i \in 1..Len(xs) :
            (SeqEnding(xs[i], "U8") /\ xs[i][1].e = xs[1][1].e) \/ (SeqEnding(xs[i], "raw") /\ xs[i][1].n = 0)
       THEN "VecU8"
  ELSE "raw"
RECURSIVE Flat(_, _)
Flat(xs, i) == IF i > Len(xs) THEN <<>> ELSE xs[i] \o Flat(xs, i + 1)
(* The list says what is known of its elements; in the form of a list of byte *)
(* vectors, also what is known of the bytes of the first.                     *)
Listed(xs, info) ==
  <<[MTok("seq", Len(xs), "", <<>>, <<>>)[1] EXCEPT !.e = info]>> \o Flat(xs, 1)
  \o <<[MTok("end", 0, Form(xs), <<>>, <<>>)[1] EXCEPT !.e = IF Form(xs) = "VecU8" THEN xs[1][1].e ELSE <<>>]>>

FieldParts(fs, hint) ==
  LET h == IF Len(fs) > 1 THEN ForgetHint(hint) ELSE hint IN
  [i \in 1..Len(fs) |-> [ty |-> fs[i].ty, hint |-> OrHint(h, HintOfField(fs[i])), pre |-> MField(fs[i])]]
TupleParts(tys, hint) ==
  LET h == IF Len(tys) > 1 THEN ForgetHint(hint) ELSE hint IN
  [i \in 1..Len(tys) |-> [ty |-> tys[i],
     hint |-> IF Resolvable(tys[i]) THEN OrHint(h, HintOfPath(Ty(tys[i]))) ELSE h, pre |-> <<>>]]

(* The pallet pattern: an enum with a call path whose variant has one field, *)
(* again an enum with a path of that kind.                                   *)
Pattern(t, v) ==
  /\ Hinted(t) \in {"Call", "Event"} /\ Len(v.fields) = 1 /\ Resolvable(v.fields[1].ty)
  /\ Ty(v.fields[1].ty).def = "Variant" /\ Hinted(Ty(v.fields[1].ty)) = Hinted(t)
Chosen(vs, ix) == {i \in 1..Len(vs) : vs[i].ix = ix /\ \A j \in 1..(i - 1) : vs[j].ix # ix}

EnumValues(t, b) ==
  IF Len(t.variants) = 0 THEN (IF b = <<>> THEN {MTok("emptyenum", 0, "", <<>>, <<>>)} ELSE {})
  ELSE IF b = <<>> THEN {}
  ELSE UNION {
    LET v == t.variants[i] IN
    IF Hinted(t) = "MultiSignature" /\ Len(v.fields) = 1 /\ SigOf(v.fields[1]) # "None"
    THEN LET s == SigOf(v.fields[1]) IN IF Len(b) = 1 + FixedWidth(s) THEN {MLeaf(s, Rest(b, 1), "")} ELSE {}
    ELSE IF Pattern(t, v)
    THEN LET u == Ty(v.fields[1].ty) IN
         IF Len(b) < 2 THEN {}
         ELSE UNION {{<<[MDocs(MTok(IF Hinted(t) = "Call" THEN "call" ELSE "event", Len(u.variants[j].fields),
                           u.variants[j].name, <<v.name>>, <<>>), u.variants[j].docs)[1] EXCEPT !.e = <<InfoOf(u)>>]>> \o x :
                        x \in Products(FieldParts(u.variants[j].fields, "None"), 1, Rest(b, 2), FALSE, {})} :
                     j \in Chosen(u.variants, b[2])}
    ELSE {MDocs(MTok("var", Len(v.fields), v.name, <<>>, <<>>), v.docs) \o x :
            x \in Products([k \in 1..Len(v.fields) |->
                     [ty |-> v.fields[k].ty, hint |-> HintOfField(v.fields[k]), pre |-> MField(v.fields[k])]],
                     1, Rest(b, 1), FALSE, {})} :
    i \in Chosen(t.variants, b[1])}

PrimValues(t, b, cmp, hint) ==
  LET p == t.prim IN
  IF p \in UintNames
  THEN LET w == UintWidth(p) IN
       {MLeaf(p, v, UintSpec(hint))[1] : v \in IF cmp THEN CompactsOf(b, w)
                                            ELSE IF Len(b) = w THEN {b} ELSE {}}
  ELSE IF cmp THEN {}
  ELSE IF p = "Bool" THEN (IF b \in {<<0>>, <<1>>} THEN {MLeaf("Bool", b, "")[1]} ELSE {})
  ELSE IF p = "Str"
  THEN {MLeaf("Text", Rest(b, k), StrSpec(hint))[1] :
          k \in {j \in 1..Len(b) : Len(b) - j \in Counts(First(b, j)) /\ Utf8(Rest(b, j))}}
  ELSE IF p = "Char" THEN (IF Len(b) = 4 /\ CharOk(b) THEN {MLeaf("Char", b, "")[1]} ELSE {})
  ELSE IF Len(b) = FixedWidth(p) THEN {MLeaf(p, b, "")[1]} ELSE {}

Values(id, b, cmp, hint, seen, info) ==
  IF ~Resolvable(id) \/ id \in seen THEN {}
  ELSE
  LET t == Ty(id)
      h == Hinted(t)
      more == seen \cup {id}
      all == info \o Said1(t)
  IN
  IF t.def = "Compact" /\ h \in {"None", "UncheckedExtrinsic", "Call", "Event", "MultiSignature"} THEN (IF cmp THEN {} ELSE Values(t.ty, b, TRUE, hint, more, all))
  ELSE Described(
  IF h \in PerThings
  THEN LET all1 == PerAccuracy(h) IN
       (IF cmp THEN {MLeaf(h, IF Leq(v, all1) THEN v ELSE all1, "") : v \in CompactsOf(b, Len(all1))}
        ELSE IF Len(b) = Len(all1) /\ Leq(b, all1) THEN {MLeaf(h, b, "")} ELSE {})
  ELSE IF h = "H256" THEN (IF ~cmp /\ Len(b) = 32 THEN {MLeaf(h, b, HashSpec(hint))} ELSE {})
  ELSE IF h = "Era" THEN (IF cmp THEN {} ELSE {MLeaf(h, e, "") : e \in ErasOf(b)})
  ELSE IF h \in FixedSpecials \cup Signatures
  THEN (IF ~cmp /\ Len(b) = FixedWidth(h) THEN {MLeaf(h, b, "")} ELSE {})
  ELSE CASE t.def = "Primitive" -> {<<x>> : x \in PrimValues(t, b, cmp, hint)}
    [] t.def = "Composite" ->
         IF cmp /\ Len(t.fields) > 1 THEN {}
         ELSE {MTok("comp", Len(t.fields), "", <<>>, <<>>) \o x :
                 x \in Products(FieldParts(t.fields, hint), 1, b, cmp, more)}
    [] t.def = "Tuple" ->
         IF cmp /\ Len(t.tys) > 1 THEN {}
         ELSE {MTok("tuple", Len(t.tys), "", <<>>, <<>>) \o x :
                 x \in Products(TupleParts(t.tys, hint), 1, b, cmp, more)}
    [] t.def = "Variant" -> IF cmp THEN {} ELSE EnumValues(t, b)
    [] t.def = "Sequence" ->
         IF cmp THEN {}
         ELSE LET el == Bare(t.ty, "None", FALSE, {}, <<>>) IN
              IF Len(el) = 0 THEN {}
              ELSE UNION {UNION {{Listed(xs, el[1].info) : xs \in Elements(el[1], n, Rest(b, k), {})} :
                                 n \in Counts(First(b, k))} : k \in 1..Len(b)}
    [] t.def = "Array" ->
         IF cmp THEN {}
         ELSE LET el == Bare(t.ty, "None", FALSE, more, <<>>) IN
              IF Len(el) = 0 THEN {}
              ELSE {Listed(xs, el[1].info) : xs \in Elements(el[1], PairInt(t.len), b, more)}
    [] t.def = "BitSequence" ->
         IF cmp \/ ~Resolvable(t.order) \/ ~Resolvable(t.store) THEN {}
         ELSE IF OrderOf(Ty(t.order)) = "bad" \/ StoreBytes(Ty(t.store)) = 0 THEN {}
         ELSE LET sb == StoreBytes(Ty(t.store))  o == OrderOf(Ty(t.order)) IN
              UNION {{MLeaf("BitVec" \o Ty(t.store).prim \o o, BitsOf(Rest(b, k), n, sb, o), "") :
                        n \in {m \in Counts(First(b, k)) :
                                 Len(b) - k = ((m + 8 * sb - 1) \div (8 * sb)) * sb}} : k \in 1..Len(b)}, all)

Meanings(id, b) == Values(id, b, FALSE, "None", {}, <<>>)
(* ... as an extension of a given identifier                                  *)
Spoken(id, b, identifier) == Values(id, b, FALSE, HintOfExt(identifier), {}, <<>>)
=============================================================================
