-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* The public steps of the parser, each as one function of the state it is   *)
(* called in: what is picked, how far a bit sequence goes, what a type, a     *)
(* field or an extension is known as, and what is passed on downwards.        *)
(* Case.aux: [h hint, c id of the compact passed or -1, ids types passed]     *)
(***************************************************************************)
EXTENDS Parser

Aux == Case.aux
AuxIds == {Aux.ids[i] : i \in 1..Len(Aux.ids)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

StepEntries == {"pick", "bvp", "husk", "order", "spec", "fld", "fty", "hint", "exth", "info"}
StepOk(p, x) == [ok |-> TRUE, e |-> NoErr, pos |-> p, x |-> x]
StepBad(e) == [ok |-> FALSE, e |-> e, pos |-> 0, x |-> <<>>]
State(hint, cmp, ids) == <<hint, cmp, Sorted(ids)>>

StepTy == Ty(Case.ty)
PickStep ==
  IF ~CanRead(pos, 1) THEN StepBad(ReadErr(pos, 1))
  ELSE LET v == Pick(StepTy.variants, Data[pos + 1]) IN
       IF v = 0 THEN StepBad(EVariantIx(pos)) ELSE StepOk(pos, <<v>>)

(* Case.ty: bytes of one element. The end may lie outside the data.           *)
BitEnd(w) ==
  LET k == CompactHere(pos, 4)
      bits == PairOfBytes(k.val)
      bytes == bits[1] * 8192 + ((bits[2] + 7) \div 8)
  IN IF ~k.ok THEN StepBad(CompactErr(pos))
     ELSE StepOk(pos, <<PairOfInt(pos + k.len + ((bytes + w - 1) \div w) * w)>>)

HuskStep ==
  LET h == Husk(Case.ty, AuxIds) IN
  IF ~h.ok THEN StepBad(h.e)
  ELSE StepOk(pos, <<h.id, TRUE, h.info>> \o State(h.hint, h.cmp, h.cyc))

OrderStep ==
  LET t == StepTy IN
  IF ~Resolvable(t.order) THEN StepBad(ENotResolved(t.order))
  ELSE IF OrderOf(Ty(t.order)) = "bad" THEN StepBad(Err("NotBitOrderType", Case.ty, <<>>, ""))
  ELSE StepOk(pos, <<OrderOf(Ty(t.order))>>)

(* Known by path; known with its insides and the next byte.                   *)
SpecStep ==
  LET t == StepTy
      h == Hinted(t)
      d == Detect(t)
      kind == IF h \in {"None", "UncheckedExtrinsic"} THEN "None"
              ELSE IF h \in {"Call", "Event", "MultiSignature"} THEN d[1] ELSE h
  IN StepOk(IF kind # "None" /\ h \in {"Call", "Event", "MultiSignature"} THEN pos + 1 ELSE pos,
            IF kind \in {"Call", "Event"}
            THEN LET i == Ty(d[3]) IN
                 <<h, kind, t.variants[d[2]].name, <<InfoOf(i)>>, t.variants[d[2]].name, d[3],
                   [n \in 1..Len(i.variants) |-> i.variants[n].name]>>
            ELSE <<h, kind>>)

FieldStep ==
  LET f == StepTy.fields[Case.pos + 1] IN
  IF f.ty \in AuxIds THEN StepBad(ECyclic(f.ty))
  ELSE StepOk(0, State(OrHint(Aux.h, HintOfField(f)), Aux.c, AuxIds \cup {f.ty}) \o <<HintOfField(f), SigOf(f), TRUE>>)
TypeStep ==
  IF Case.ty \in AuxIds THEN StepBad(ECyclic(Case.ty))
  ELSE StepOk(0, State(OrHint(Aux.h, HintOfPath(StepTy)), Aux.c, AuxIds \cup {Case.ty}) \o <<HintOfPath(StepTy), TRUE>>)
HintStep ==
  StepOk(0, <<UintSpec(Aux.h), StrSpec(Aux.h), HashSpec(Aux.h), Aux.c, TRUE>>
            \o State(ForgetHint(Aux.h), Aux.c, AuxIds) \o State(ForgetHint(Aux.h), Aux.c, {}))
ExtHintStep == StepOk(0, State(HintOfExt(Meta.exts[Case.pos + 1].id), -1, {}) \o <<<<>>>>)
InfoStep ==
  LET i == InfoOf(StepTy) IN
  StepOk(0, <<<<i>>, InfoEmpty(i), IF i.d = "" THEN <<>> ELSE <<i.d>>,
              IF i.p = <<>> THEN <<>> ELSE <<JoinStr(i.p, " >> ")>>,
              IF InfoEmpty(i) THEN <<i, i>> ELSE <<i, i, i>>>>)

StepResult ==
  LET e == Case.entry IN
  IF e \notin {"bvp", "husk", "hint", "exth"} /\ ~Resolvable(Case.ty) THEN StepBad(ENotResolved(Case.ty))
  ELSE CASE e = "pick" -> PickStep
         [] e = "bvp" -> BitEnd(Case.ty)
         [] e = "husk" -> HuskStep
         [] e = "order" -> OrderStep
         [] e = "spec" -> SpecStep
         [] e = "fld" -> FieldStep
         [] e = "fty" -> TypeStep
         [] e = "hint" -> HintStep
         [] e = "exth" -> ExtHintStep
         [] e = "info" -> InfoStep
=============================================================================
