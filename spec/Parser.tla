------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The substrate-parser library as a state machine: a pushdown parser that  *)
(* reads a byte buffer under the control of a type registry, plus the entry *)
(* programs (transactions, storage entries, unchecked extrinsics, metadata  *)
(* facts) that drive it.  One named action per parser step.                 *)
(*                                                                          *)
(* CaseAt(i): case number i, a record; the fields every case has:           *)
(*   m (number of the metadata), entry (program), bufs (byte sequences), pos, ty,   *)
(*   gh (<<>> or <<hash>>), st (<<>> or <<storage entry>>)                  *)
(* MetaAt(i): metadata number i, a record (see Entries.tla)                 *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

CONSTANTS CaseAt(_), MetaAt(_)

VARIABLES
  c,      \* index of the case
  ph,     \* phase of the entry program
  ctl,    \* what the pushdown machine does next
  stk,    \* stack of unfinished containers
  buf,    \* which buffer is read
  pos,    \* position in it (bytes already used)
  lim,    \* reading limit (end of the visible buffer)
  emit,   \* tokens produced by the last step
  env,    \* entry-program registers
  res     \* result, once done

vars == <<c, ph, ctl, stk, buf, pos, lim, emit, env, res>>

Case == CaseAt(c)
Meta == MetaAt(Case.m)
Reg == Meta.reg
Data == IF buf = 0 THEN env.vbytes ELSE Case.bufs[buf]

----------------------------------------------------------------------------
(* Errors: w(rapper), k(ind), p(osition or id), n(umbers), s(tring)          *)
Err(k, p, n, s) == [w |-> "", k |-> k, p |-> p, n |-> n, s |-> s]
EShort(p, n) == Err("DataTooShort", p, n, "")
ERange(p, l) == Err("OutOfRange", p, PairOfInt(l), "")
ETypeFail(p, t) == Err("TypeFailure", p, <<>>, t)
ENoCompact(p) == Err("NoCompact", p, <<>>, "")
EVariantIx(p) == Err("UnexpectedEnumVariant", p, <<>>, "")
ECyclic(id) == Err("CyclicMetadata", id, <<>>, "")
ENotResolved(id) == Err("TypeNotResolved", id, <<>>, "")
ECompactIn(id) == Err("UnexpectedCompactInsides", id, <<>>, "")
ELeftBlob(p) == Err("SomeDataNotUsedBlob", p, <<>>, "")
Wrap(w, e) == [e EXCEPT !.w = w]
NoErr == Err("", 0, <<>>, "")

(* Reading n bytes (n an integer) at position p below the limit.             *)
ReadErr(p, n) == IF lim < p THEN ERange(p, lim) ELSE EShort(p, PairOfInt(n))
CanRead(p, n) == p <= lim /\ p + n <= lim
Slice(p, n) == SubSeq(Data, p + 1, p + n)
CompactHere(p, w) == CompactAt(Data, p, lim, w)
CompactErr(p) == IF lim < p THEN ERange(p, lim) ELSE ENoCompact(p)

----------------------------------------------------------------------------
(* Registry vocabulary                                                       *)
Resolvable(id) == id >= 0 /\ id < Len(Reg)
Ty(id) == Reg[id + 1]
Ident(t) == IF Len(t.path) = 0 THEN "" ELSE t.path[Len(t.path)]
Namespace(t) == IF Len(t.path) = 0 THEN <<>> ELSE SubSeq(t.path, 1, Len(t.path) - 1)
InfoOf(t) == [d |-> JoinStr(t.docs, "\n"), p |-> t.path]
InfoEmpty(i) == i.d = "" /\ Len(i.p) = 0
AddInfo(info, t) == LET i == InfoOf(t) IN IF InfoEmpty(i) THEN info ELSE Append(info, i)

(* The special meaning of a type, by its path (documented identifiers).      *)
Hinted(t) ==
  LET a == Ident(t) IN
  CASE a = "" -> "None"
    [] a = "AccountId32" -> "AccountId32"
    [] a \in {"Call", "RuntimeCall"} -> "Call"
    [] a = "Era" -> "Era"
    [] a \in {"Event", "RuntimeEvent"} -> "Event"
    [] a \in {"AccountId20", "H160"} -> "H160"
    [] a = "H256" -> "H256"
    [] a = "H512" -> "H512"
    [] a = "MultiSignature" -> "MultiSignature"
    [] a \in {"Perbill", "Percent", "Permill", "Perquintill", "PerU16"} -> a
    [] a \in {"Public", "Signature"} ->
         (CASE Namespace(t) = <<"sp_core", "ed25519">> -> a \o "Ed25519"
            [] Namespace(t) = <<"sp_core", "sr25519">> -> a \o "Sr25519"
            [] Namespace(t) = <<"sp_core", "ecdsa">> -> a \o "Ecdsa"
            [] OTHER -> "None")
    [] a = "UncheckedExtrinsic" ->
         IF Namespace(t) = <<"sp_runtime", "generic", "unchecked_extrinsic">>
         THEN "UncheckedExtrinsic" ELSE "None"
    [] OTHER -> "None"

(* Hints: where a number, text or hash gets its meaning from.                *)
HintOfField(f) ==
  LET byName == IF Len(f.name) = 0 THEN "None" ELSE
        CASE f.name[1] = "nonce" -> "FieldNonce"
          [] f.name[1] = "spec_version" -> "FieldSpecVersion"
          [] f.name[1] = "spec_name" -> "FieldSpecName"
          [] f.name[1] \in {"tx_version", "transaction_version"} -> "FieldTxVersion"
          [] OTHER -> "None"
  IN IF byName # "None" THEN byName
     ELSE IF Len(f.tn) = 1 /\ f.tn[1] \in {"Balance", "BalanceOf<T>", "BalanceOf<T, I>",
               "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance"}
     THEN "FieldBalance" ELSE "None"
HintOfExt(identifier) ==
  IF identifier \in {"CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality",
                     "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"}
  THEN identifier ELSE "None"
HintOfPath(t) == IF Ident(t) \in {"CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"}
                 THEN Ident(t) ELSE "None"
OrHint(old, new) == IF old = "None" THEN new ELSE old
ForgetHint(h) == IF h = "ChargeAssetTxPayment" THEN h ELSE "None"
UintSpec(h) ==
  CASE h \in {"CheckSpecVersion", "FieldSpecVersion"} -> "SpecVersion"
    [] h \in {"CheckTxVersion", "FieldTxVersion"} -> "TxVersion"
    [] h \in {"CheckNonce", "FieldNonce"} -> "Nonce"
    [] h = "ChargeTransactionPayment" -> "Tip"
    [] h = "ChargeAssetTxPayment" -> "TipAsset"
    [] h = "FieldBalance" -> "Balance"
    [] OTHER -> "None"
StrSpec(h) == IF h = "FieldSpecName" THEN "SpecName" ELSE "None"
HashSpec(h) == CASE h = "CheckGenesis" -> "GenesisHash" [] h = "CheckMortality" -> "BlockHash"
               [] OTHER -> "None"

(* First variant with the index, as a position in the list; 0 if none.       *)
RECURSIVE PickFrom(_, _, _)
PickFrom(vs, ix, i) == IF i > Len(vs) THEN 0
                       ELSE IF vs[i].ix = ix THEN i ELSE PickFrom(vs, ix, i + 1)
Pick(vs, ix) == PickFrom(vs, ix, 1)

(* Husking: seeing through single-field structs and compacts to the element  *)
(* type of a sequence.  cyc are the ids already passed since data was read.  *)
RECURSIVE HuskFrom(_, _, _, _, _)
HuskFrom(id, info, cyc, hint, cmp) ==
  LET t == Ty(id)
      info2 == AddInfo(info, t)
      stop == [ok |-> TRUE, id |-> id, info |-> info2, cyc |-> cyc, hint |-> hint, cmp |-> cmp,
               e |-> NoErr]
      bad(e) == [stop EXCEPT !.ok = FALSE, !.e = e]
      go(i, h, k) == IF i \in cyc THEN bad(ECyclic(i))
                     ELSE IF ~Resolvable(i) THEN bad(ENotResolved(i))
                     ELSE HuskFrom(i, info2, cyc \cup {i}, h, k)
  IN IF Hinted(t) # "None" THEN stop
     ELSE IF t.def = "Composite" /\ Len(t.fields) = 1
          THEN go(t.fields[1].ty, OrHint(hint, HintOfField(t.fields[1])), cmp)
     ELSE IF t.def = "Compact"
          THEN IF cmp # -1 THEN bad(ECompactIn(cmp)) ELSE go(t.ty, hint, id)
     ELSE stop
Husk(id, cyc) ==
  LET none == [ok |-> FALSE, id |-> id, info |-> <<>>, cyc |-> cyc, hint |-> "None", cmp |-> -1,
               e |-> NoErr]
  IN IF id \in cyc THEN [none EXCEPT !.e = ECyclic(id)]
     ELSE IF ~Resolvable(id) THEN [none EXCEPT !.e = ENotResolved(id)]
     ELSE HuskFrom(id, <<>>, cyc \cup {id}, "None", -1)

UintWidth(prim) == CASE prim = "U8" -> 1 [] prim = "U16" -> 2 [] prim = "U32" -> 4
                     [] prim = "U64" -> 8 [] prim = "U128" -> 16
                     [] prim = "PerU16" -> 2 [] prim = "Percent" -> 1 [] prim = "Permill" -> 4
                     [] prim = "Perbill" -> 4 [] prim = "Perquintill" -> 8
FixedWidth(prim) == CASE prim = "Bool" -> 1 [] prim = "Char" -> 4 [] prim = "U256" -> 32
                     [] prim = "I8" -> 1 [] prim = "I16" -> 2 [] prim = "I32" -> 4
                     [] prim = "I64" -> 8 [] prim = "I128" -> 16 [] prim = "I256" -> 32
                     [] prim = "AccountId32" -> 32 [] prim = "H160" -> 20 [] prim = "H256" -> 32
                     [] prim = "H512" -> 64
                     [] prim \in {"PublicEd25519", "PublicSr25519"} -> 32
                     [] prim = "PublicEcdsa" -> 33
                     [] prim \in {"SignatureEd25519", "SignatureSr25519"} -> 64
                     [] prim = "SignatureEcdsa" -> 65

(* Which signature a variant field of a MultiSignature denotes.              *)
SigOf(f) ==
  LET hk == Husk(f.ty, {}) IN
  IF ~hk.ok THEN "None" ELSE
  LET t == Ty(hk.id) IN
  IF t.def # "Array" \/ ~Resolvable(t.ty) THEN "None"
  ELSE IF Ty(t.ty).def # "Primitive" \/ Ty(t.ty).prim # "U8" \/ Len(f.tn) = 0 THEN "None"
  ELSE CASE f.tn[1] = "ecdsa::Signature" /\ t.len = <<0, 65>> -> "SignatureEcdsa"
         [] f.tn[1] = "ed25519::Signature" /\ t.len = <<0, 64>> -> "SignatureEd25519"
         [] f.tn[1] = "sr25519::Signature" /\ t.len = <<0, 64>> -> "SignatureSr25519"
         [] OTHER -> "None"

(* Detection of calls/events and signatures looks one byte ahead.            *)
(* Result: <<kind, index in variants, inner type id>>                        *)
NotSpecial == <<"None", 0, 0>>
Detect(t) ==
  LET h == Hinted(t) IN
  IF h \notin {"Call", "Event", "MultiSignature"} \/ t.def # "Variant" \/ ~CanRead(pos, 1)
  THEN NotSpecial
  ELSE LET v == Pick(t.variants, Data[pos + 1]) IN
       IF v = 0 THEN NotSpecial
       ELSE IF Len(t.variants[v].fields) # 1 THEN NotSpecial
       ELSE LET f == t.variants[v].fields[1] IN
            IF h = "MultiSignature"
            THEN IF SigOf(f) = "None" THEN NotSpecial ELSE <<SigOf(f), v, 0>>
            ELSE IF ~Resolvable(f.ty) THEN NotSpecial
            ELSE IF Hinted(Ty(f.ty)) = h /\ Ty(f.ty).def = "Variant"
                 THEN <<h, v, f.ty>> ELSE NotSpecial

----------------------------------------------------------------------------
(* Tokens: the decoded value in prefix order. One shape for all.             *)
(* k kind, n number of parts, s name/leaf type, t second name, d docs,       *)
(* v value, sp label, i info, e element info / pallet info, g ghost (the     *)
(* bytes the token stands for; not part of the observable value)             *)
Tok(k, n, s, t, d, v, sp, i, e, g) ==
  [k |-> k, n |-> n, s |-> s, t |-> t, d |-> d, v |-> v, sp |-> sp, i |-> i, e |-> e, g |-> g]
TLeaf(ty, v, sp, i, g) == Tok("leaf", 0, ty, <<>>, "", v, sp, i, <<>>, g)
TComp(n, i) == Tok("comp", n, "", <<>>, "", <<>>, "", i, <<>>, <<>>)
TTuple(n, i) == Tok("tuple", n, "", <<>>, "", <<>>, "", i, <<>>, <<>>)
TVar(name, docs, n, i, g) == Tok("var", n, name, <<>>, docs, <<>>, "", i, <<>>, g)
TPallet(kind, pallet, name, docs, n, i, pinfo, g) ==
  Tok(kind, n, name, <<pallet>>, docs, <<>>, "", i, <<pinfo>>, g)
TField(f) == Tok("field", 0, "", f.name, JoinStr(f.docs, "\n"), f.tn, "", <<>>, <<>>, <<>>)
TSeq(n, i, e, g) == Tok("seq", n, "", <<>>, "", <<>>, "", i, e, g)
TEnd(w, e) == Tok("end", 0, w, <<>>, "", <<>>, "", <<>>, e, <<>>)
TEmptyEnum(i) == Tok("emptyenum", 0, "", <<>>, "", <<>>, "", i, <<>>, <<>>)
TPart(name) == Tok("part", 0, name, <<>>, "", <<>>, "", <<>>, <<>>, <<>>)

(* Summaries: what a container needs to know of a finished part.             *)
SLeaf(ty, v, sp) == [k |-> "leaf", ty |-> ty, v |-> v, sp |-> sp, e |-> <<>>, kids |-> <<>>]
SNode(k, kids) == [k |-> k, ty |-> "", v |-> <<>>, sp |-> "", e |-> <<>>, kids |-> kids]
SSeq(w, n, e) == [k |-> "seq", ty |-> w, v |-> n, sp |-> "", e |-> e, kids |-> <<>>]

----------------------------------------------------------------------------
(* Machine plumbing                                                          *)
Idle == [op |-> "idle"]
DecCtl(id, hint, cmp, cyc, drop) ==
  [op |-> "dec", id |-> id, hint |-> hint, cmp |-> cmp, cyc |-> cyc, info |-> <<>>, drop |-> drop,
   blind |-> FALSE]
Fresh(id) == DecCtl(id, "None", -1, {}, FALSE)
RetCtl(s) == [op |-> "ret", s |-> s]
ErrCtl(e) == [op |-> "err", e |-> e]

Raise(e) == ctl' = ErrCtl(e) /\ stk' = <<>> /\ emit' = <<>> /\ UNCHANGED pos
EntryVars == <<c, ph, buf, lim, env, res>>

(* A leaf: value v of type ty read from the next n bytes.                    *)
Leaf(ty, v, sp, info, n, g) ==
  /\ emit' = <<TLeaf(ty, v, sp, info, g)>>
  /\ pos' = pos + n
  /\ ctl' = RetCtl(SLeaf(ty, v, sp))
  /\ UNCHANGED stk

(* A container frame.                                                        *)
Frame(f, ty, var, hint, cmp, cyc) ==
  [f |-> f, ty |-> ty, var |-> var, i |-> 1, hint |-> hint, cmp |-> cmp, cyc |-> cyc,
   kids |-> <<>>, n |-> 0, w |-> "", e |-> <<>>]
Open(fr) == stk' = Append(stk, fr) /\ ctl' = [op |-> "next"]
Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)

FieldsOf(fr) == IF fr.var = 0 THEN Ty(fr.ty).fields ELSE Ty(fr.ty).variants[fr.var].fields

----------------------------------------------------------------------------
(* Decoding one item of type id. Info accumulates through compacts.          *)
IsDec == ctl.op = "dec"
T == Ty(ctl.id)
Info2 == AddInfo(ctl.info, T)
OutInfo == IF ctl.drop THEN <<>> ELSE Info2
NoCmp == ctl.cmp = -1
RaiseCmp == Raise(ECompactIn(ctl.cmp))

DecUnresolved ==
  /\ IsDec /\ ~Resolvable(ctl.id)
  /\ Raise(ENotResolved(ctl.id)) /\ UNCHANGED EntryVars

(* What the item is decoded as: by path, else by definition.                 *)
Kind ==
  LET h == Hinted(T) IN
  IF h \in {"None", "UncheckedExtrinsic"} THEN T.def
  ELSE IF h \in {"Call", "Event", "MultiSignature"}
       THEN IF ctl.blind THEN T.def ELSE LET d == Detect(T)[1] IN IF d = "None" THEN T.def ELSE d
  ELSE h

DecComposite(kind) ==
  /\ kind = "Composite"
  /\ IF Len(T.fields) > 1 /\ ~NoCmp THEN RaiseCmp
     ELSE /\ emit' = <<TComp(Len(T.fields), OutInfo)>>
          /\ Open(Frame("fields", ctl.id, 0,
                        IF Len(T.fields) > 1 THEN ForgetHint(ctl.hint) ELSE ctl.hint,
                        ctl.cmp, ctl.cyc))
          /\ UNCHANGED pos
  /\ UNCHANGED EntryVars

OpenVariant(tyid, what, tok(_, _), p) ==    \* variant list of type tyid, index byte at p
  IF ~CanRead(p, 1) THEN Raise(ReadErr(p, 1))
  ELSE LET vs == Ty(tyid).variants
           v == Pick(vs, Data[p + 1])
       IN IF v = 0 THEN Raise(EVariantIx(p))
          ELSE /\ emit' = <<tok(vs[v], Slice(pos, p + 1 - pos))>>
               /\ pos' = p + 1
               /\ Open([Frame("vfields", tyid, v, "None", -1, {}) EXCEPT !.w = what])

DecEmptyEnum(kind) ==
  /\ kind = "Variant" /\ Len(T.variants) = 0
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE /\ emit' = <<TEmptyEnum(OutInfo)>>
          /\ ctl' = RetCtl(SNode("emptyenum", <<>>))
          /\ UNCHANGED <<stk, pos>>
  /\ UNCHANGED EntryVars

DecVariant(kind) ==
  /\ kind = "Variant" /\ Len(T.variants) > 0
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE OpenVariant(ctl.id, "var",
            LAMBDA v, g : TVar(v.name, JoinStr(v.docs, "\n"), Len(v.fields), OutInfo, g), pos)
  /\ UNCHANGED EntryVars

(* Call or event: pallet byte, then the pallet's own enum.                   *)
DecPallet(kind) ==
  /\ kind \in {"Call", "Event"}
  /\ LET d == Detect(T)
         pallet == T.variants[d[2]].name
     IN IF ~NoCmp THEN RaiseCmp
        ELSE OpenVariant(d[3], IF kind = "Call" THEN "call" ELSE "event",
               LAMBDA v, g : TPallet(IF kind = "Call" THEN "call" ELSE "event", pallet, v.name,
                    JoinStr(v.docs, "\n"), Len(v.fields), OutInfo, InfoOf(Ty(d[3])), g), pos + 1)
  /\ UNCHANGED EntryVars

OpenElems(n, cyc, used) ==
  IF ~NoCmp THEN RaiseCmp ELSE
  LET hk == Husk(T.ty, cyc) IN
  IF ~hk.ok THEN Raise(hk.e)
  ELSE /\ emit' = <<TSeq(n, OutInfo, hk.info, Slice(pos, used))>>
       /\ pos' = pos + used
       /\ Open([Frame("elems", hk.id, 0, hk.hint, hk.cmp, hk.cyc) EXCEPT !.n = n, !.e = hk.info])

(* A length above 2^30 can never be satisfied by non-empty elements within   *)
(* the buffers considered; zero-sized ones are a documented finding.         *)
DecSequence(kind) ==
  /\ kind = "Sequence"
  /\ LET k == CompactHere(pos, 4) IN
     IF ~k.ok THEN Raise(CompactErr(pos))
     ELSE LET n == PairOfBytes(k.val)
          IN OpenElems(IF PairFits(n) THEN PairInt(n) ELSE 1073741823, {}, k.len)
  /\ UNCHANGED EntryVars

DecArray(kind) ==
  /\ kind = "Array"
  /\ OpenElems(IF PairFits(T.len) THEN PairInt(T.len) ELSE 1073741823, ctl.cyc, 0)
  /\ UNCHANGED EntryVars

DecTuple(kind) ==
  /\ kind = "Tuple"
  /\ IF Len(T.tys) > 1 /\ ~NoCmp THEN RaiseCmp
     ELSE /\ emit' = <<TTuple(Len(T.tys), OutInfo)>>
          /\ Open(Frame("tuple", ctl.id, 0,
                        IF Len(T.tys) > 1 THEN ForgetHint(ctl.hint) ELSE ctl.hint,
                        ctl.cmp, ctl.cyc))
          /\ UNCHANGED pos
  /\ UNCHANGED EntryVars

DecCompact(kind) ==
  /\ kind = "Compact"
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE IF T.ty \in ctl.cyc THEN Raise(ECyclic(T.ty))
     ELSE /\ ctl' = [ctl EXCEPT !.id = T.ty, !.cmp = ctl.id, !.cyc = @ \cup {T.ty},
                                !.info = Info2]
          /\ emit' = <<>>
          /\ UNCHANGED <<stk, pos>>
  /\ UNCHANGED EntryVars

(* Unsigned integers and fractions: the only things allowed inside a compact *)
Saturate(ty, v) == IF Leq(v, PerAccuracy(ty)) THEN v ELSE PerAccuracy(ty)
DecUint(kind) ==
  /\ kind = "Primitive" /\ T.prim \in {"U8", "U16", "U32", "U64", "U128"}
  /\ LET w == UintWidth(T.prim) IN
     IF NoCmp
     THEN IF ~CanRead(pos, w) THEN Raise(ReadErr(pos, w))
          ELSE Leaf(T.prim, Slice(pos, w), UintSpec(ctl.hint), OutInfo, w, Slice(pos, w))
     ELSE LET k == CompactHere(pos, w) IN
          IF ~k.ok THEN Raise(CompactErr(pos))
          ELSE Leaf(T.prim, k.val, UintSpec(ctl.hint), OutInfo, k.len, CompactEnc(k.val))
  /\ UNCHANGED EntryVars
PerThings == {"Perbill", "Percent", "Permill", "Perquintill", "PerU16"}
DecPerThing(kind) ==
  /\ kind \in PerThings
  /\ LET w == UintWidth(kind) IN
     IF NoCmp
     THEN IF ~CanRead(pos, w) THEN Raise(ReadErr(pos, w))
          ELSE IF ~Leq(Slice(pos, w), PerAccuracy(kind)) THEN Raise(ETypeFail(pos, kind))
          ELSE Leaf(kind, Slice(pos, w), "", OutInfo, w, Slice(pos, w))
     ELSE LET k == CompactHere(pos, w) IN
          IF ~k.ok THEN Raise(CompactErr(pos))
          ELSE Leaf(kind, Saturate(kind, k.val), "", OutInfo, k.len, Slice(pos, k.len))
  /\ UNCHANGED EntryVars

(* Fixed-length items, refused inside compacts.                              *)
FixedPrims == {"I8", "I16", "I32", "I64", "I128", "I256", "U256"}
FixedSpecials == {"AccountId32", "H160", "H512", "PublicEd25519", "PublicSr25519",
   "PublicEcdsa"}
Signatures == {"SignatureEd25519", "SignatureSr25519", "SignatureEcdsa"}
ReadFixed(ty, skip) ==
  LET w == FixedWidth(ty) IN
  IF ~NoCmp THEN RaiseCmp
  ELSE IF ~CanRead(pos + skip, w) THEN Raise(ReadErr(pos + skip, w))
  ELSE Leaf(ty, Slice(pos + skip, w), "", OutInfo, w + skip, Slice(pos, w + skip))
DecFixed(kind) ==
  /\ \/ kind = "Primitive" /\ T.prim \in FixedPrims /\ ReadFixed(T.prim, 0)
     \/ kind \in FixedSpecials /\ ReadFixed(kind, 0)
     \/ kind \in Signatures /\ ReadFixed(kind, IF Hinted(T) = "MultiSignature" THEN 1 ELSE 0)
  /\ UNCHANGED EntryVars
DecBool(kind) ==
  /\ kind = "Primitive" /\ T.prim = "Bool"
  /\ IF NoCmp /\ CanRead(pos, 1) /\ Data[pos + 1] > 1 THEN Raise(ETypeFail(pos, "bool"))
     ELSE ReadFixed("Bool", 0)
  /\ UNCHANGED EntryVars
DecChar(kind) ==
  /\ kind = "Primitive" /\ T.prim = "Char"
  /\ IF NoCmp /\ CanRead(pos, 4) /\ ~CharOk(Slice(pos, 4)) THEN Raise(ETypeFail(pos, "char"))
     ELSE ReadFixed("Char", 0)
  /\ UNCHANGED EntryVars
DecStr(kind) ==
  /\ kind = "Primitive" /\ T.prim = "Str"
  /\ IF ~NoCmp THEN RaiseCmp ELSE
     LET k == CompactHere(pos, 4) IN
     IF ~k.ok THEN Raise(CompactErr(pos)) ELSE
     LET n == PairOfBytes(k.val)
         p == pos + k.len IN
     IF ~PairWithin(p, n, lim) THEN Raise(EShort(p, n))
     ELSE IF ~Utf8(Slice(p, PairInt(n))) THEN Raise(ETypeFail(pos, "str"))
     ELSE Leaf("Text", Slice(p, PairInt(n)), StrSpec(ctl.hint), OutInfo, k.len + PairInt(n),
               CompactEnc(k.val) \o Slice(p, PairInt(n)))
  /\ UNCHANGED EntryVars
DecH256(kind) ==
  /\ kind = "H256"
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE IF ~CanRead(pos, 32) THEN Raise(ReadErr(pos, 32))
     ELSE Leaf("H256", Slice(pos, 32), HashSpec(ctl.hint), OutInfo, 32, Slice(pos, 32))
  /\ UNCHANGED EntryVars
DecEra(kind) ==
  /\ kind = "Era"
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE IF ~CanRead(pos, 1) THEN Raise(ReadErr(pos, 1))
     ELSE IF Data[pos + 1] = 0 THEN Leaf("Era", <<>>, "", OutInfo, 1, <<0>>)
     ELSE IF ~CanRead(pos, 2) THEN Raise(ReadErr(pos, 2))
     ELSE LET b1 == Data[pos + 1]  b2 == Data[pos + 2] IN
          IF ~EraOk(b1, b2) THEN Raise(ETypeFail(pos, "Era"))
          ELSE Leaf("Era", <<EraPeriod(b1, b2), EraPhase(b1, b2)>>, "", OutInfo, 2, Slice(pos, 2))
  /\ UNCHANGED EntryVars

(* Bit sequences: order and store types, bit length, then whole elements.    *)
OrderOf(t) == IF t.def # "Composite" THEN "bad"
              ELSE IF Ident(t) \in {"Lsb0", "Msb0"} THEN Ident(t) ELSE "bad"
StoreBytes(t) == IF t.def # "Primitive" THEN 0
                 ELSE CASE t.prim = "U8" -> 1 [] t.prim = "U16" -> 2 [] t.prim = "U32" -> 4
                        [] t.prim = "U64" -> 8 [] OTHER -> 0
DecBits(kind) ==
  /\ kind = "BitSequence"
  /\ IF ~NoCmp THEN RaiseCmp
     ELSE IF ~Resolvable(T.order) THEN Raise(ENotResolved(T.order))
     ELSE IF OrderOf(Ty(T.order)) = "bad" THEN Raise(Err("NotBitOrderType", ctl.id, <<>>, ""))
     ELSE IF ~Resolvable(T.store) THEN Raise(ENotResolved(T.store))
     ELSE IF StoreBytes(Ty(T.store)) = 0 THEN Raise(Err("NotBitStoreType", ctl.id, <<>>, ""))
     ELSE LET k == CompactHere(pos, 4)
              sb == StoreBytes(Ty(T.store))
              order == OrderOf(Ty(T.order)) IN
          IF ~k.ok THEN Raise(CompactErr(pos)) ELSE
          LET bits == PairOfBytes(k.val)
              \* ceil(bits / (8 sb)) * sb, without leaving 32 bits
              bytes == bits[1] * 8192 + ((bits[2] + 7) \div 8)
              room == ((bytes + sb - 1) \div sb) * sb
              need == k.len + room IN
          IF ~CanRead(pos, need) THEN Raise(ReadErr(pos, need))
          ELSE Leaf("BitVec" \o Ty(T.store).prim \o order,
                    [b \in 1..PairInt(bits) |-> BitOf(Data, pos + k.len, sb, order, b - 1)],
                    "", OutInfo, need, Slice(pos, need))
  /\ UNCHANGED EntryVars

----------------------------------------------------------------------------
(* Containers: next part, or done.                                           *)
IsNext == ctl.op = "next"

NextField ==
  /\ IsNext /\ Top.f \in {"fields", "vfields"} /\ Top.i <= Len(FieldsOf(Top))
  /\ LET f == FieldsOf(Top)[Top.i] IN
     IF f.ty \in Top.cyc THEN Raise(ECyclic(f.ty))
     ELSE /\ ctl' = DecCtl(f.ty, OrHint(Top.hint, HintOfField(f)), Top.cmp,
                           Top.cyc \cup {f.ty}, FALSE)
          /\ emit' = <<TField(f)>>
          /\ UNCHANGED <<stk, pos>>
  /\ UNCHANGED EntryVars

NextTupleElement ==
  /\ IsNext /\ Top.f = "tuple" /\ Top.i <= Len(Ty(Top.ty).tys)
  /\ LET id == Ty(Top.ty).tys[Top.i] IN
     IF ~Resolvable(id) THEN Raise(ENotResolved(id))
     ELSE IF id \in Top.cyc THEN Raise(ECyclic(id))
     ELSE /\ ctl' = DecCtl(id, OrHint(Top.hint, HintOfPath(Ty(id))), Top.cmp,
                           Top.cyc \cup {id}, FALSE)
          /\ emit' = <<>>
          /\ UNCHANGED <<stk, pos>>
  /\ UNCHANGED EntryVars

NextElement ==
  /\ IsNext /\ Top.f = "elems" /\ Top.i <= Top.n
  /\ ctl' = DecCtl(Top.ty, Top.hint, Top.cmp, Top.cyc, TRUE)
  /\ emit' = <<>>
  /\ UNCHANGED <<stk, pos>> /\ UNCHANGED EntryVars

CloseContainer ==
  /\ IsNext
  /\ \/ /\ Top.f = "fields" /\ Top.i > Len(FieldsOf(Top))
        /\ ctl' = RetCtl(SNode("comp", Top.kids)) /\ emit' = <<>>
     \/ /\ Top.f = "vfields" /\ Top.i > Len(FieldsOf(Top))
        /\ ctl' = RetCtl(SNode(Top.w, <<>>)) /\ emit' = <<>>
     \/ /\ Top.f = "tuple" /\ Top.i > Len(Ty(Top.ty).tys)
        /\ ctl' = RetCtl(SNode("tuple", <<>>)) /\ emit' = <<>>
     \/ /\ Top.f = "elems" /\ Top.i > Top.n
        /\ LET w == IF Top.n = 0 THEN "raw" ELSE Top.w
           IN /\ ctl' = RetCtl(SSeq(w, Top.n, Top.e))
              /\ emit' = <<TEnd(w, IF w = "VecU8" THEN Top.kids[1] ELSE <<>>)>>
  /\ stk' = Pop
  /\ UNCHANGED pos /\ UNCHANGED EntryVars

(* A part is finished: hand its summary to the enclosing container.          *)
(* Sequence wrapping is decided element by element.                          *)
WrapStep(fr, s) ==
  IF fr.i = 1
  THEN CASE s.k = "leaf" /\ s.ty \in {"U8", "U16", "U32", "U64", "U128"} /\ s.sp = "None" -> s.ty
         [] s.k = "seq" /\ s.ty = "U8" -> "VecU8"
         [] OTHER -> "raw"
  ELSE CASE fr.w \in {"U8", "U16", "U32", "U64", "U128"} ->
              IF s.k = "leaf" /\ s.ty = fr.w /\ s.sp = "None" THEN fr.w ELSE "raw"
         [] fr.w = "VecU8" ->
              IF s.k = "seq" /\ ((s.ty = "U8" /\ s.e = fr.kids[1]) \/ (s.ty = "raw" /\ s.v = 0))
              THEN "VecU8" ELSE "raw"
         [] OTHER -> "raw"

Return ==
  /\ ctl.op = "ret" /\ Len(stk) > 0
  /\ LET fr == Top
         fr2 == CASE fr.f = "elems" ->
                       [fr EXCEPT !.i = @ + 1, !.w = WrapStep(fr, ctl.s),
                          !.kids = IF fr.i = 1 /\ ctl.s.k = "seq" THEN <<ctl.s.e>> ELSE @]
                  [] fr.f = "fields" /\ Len(stk) = 1 ->
                       [fr EXCEPT !.i = @ + 1, !.kids = Append(@, [ctl.s EXCEPT !.kids = <<>>])]
                  [] OTHER -> [fr EXCEPT !.i = @ + 1]
     IN stk' = [stk EXCEPT ![Len(stk)] = fr2]
  /\ ctl' = [op |-> "next"]
  /\ emit' = <<>>
  /\ UNCHANGED pos /\ UNCHANGED EntryVars

(* One decoding step of the item under control.                              *)
DecodeItem ==
  /\ IsDec /\ Resolvable(ctl.id)
  /\ LET k == Kind IN
       \/ DecComposite(k) \/ DecEmptyEnum(k) \/ DecVariant(k) \/ DecPallet(k)
       \/ DecSequence(k) \/ DecArray(k) \/ DecTuple(k) \/ DecCompact(k)
       \/ DecUint(k) \/ DecPerThing(k) \/ DecFixed(k) \/ DecBool(k) \/ DecChar(k)
       \/ DecStr(k) \/ DecH256(k) \/ DecEra(k) \/ DecBits(k)

ParserStep ==
  \/ DecUnresolved \/ DecodeItem
  \/ NextField \/ NextTupleElement \/ NextElement \/ CloseContainer \/ Return
=============================================================================
