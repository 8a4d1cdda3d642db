------------------------------ MODULE Entries ------------------------------
(***************************************************************************)
(* The public entry points of the library as programs that drive the        *)
(* pushdown parser: whole-blob and positioned decoding, signable            *)
(* transactions (marked and unmarked), extensions and their checks,         *)
(* storage entries, unchecked extrinsics, facts read from metadata, and a   *)
(* memory that may fail.  Every phase is one named action.                  *)
(*                                                                          *)
(* A metadata is a record                                                   *)
(*   reg   type registry           v      14 or 15                          *)
(*   pallets  <<[name, consts]>>   exts   <<[id, ty, add]>>                 *)
(*   xty   V14 extrinsic type      xver   extrinsic version                 *)
(*   xp    V15: [a, c, s, e] address, call, signature, extra types          *)
(***************************************************************************)
EXTENDS Steps, Hashes, Balance

NoRes == [st |-> "", e |-> NoErr, pos |-> 0, cst |-> "", ce |-> NoErr, x |-> <<>>]
Env0 == [k |-> 0, exts |-> <<>>, cs |-> 0, es |-> 0, vbytes |-> <<>>, save |-> 0,
         ver |-> <<>>, vname |-> <<>>, hash |-> <<>>, dev |-> "", hit |-> FALSE]

EntryInit ==
  /\ ph = "start" /\ ctl = Idle /\ stk = <<>> /\ buf = 1 /\ pos = Case.pos
  /\ lim = Len(Case.bufs[1]) /\ emit = <<>> /\ env = Env0 /\ res = NoRes

----------------------------------------------------------------------------
(* Plumbing                                                                  *)
Faulty == Case.flt # ""
Say(toks) == emit' = toks
Quiet == emit' = <<>>
Goto(p) == ph' = p /\ ctl' = Idle
Parse(p, id, hint) == ph' = p /\ ctl' = [Fresh(id) EXCEPT !.hint = hint]
Ok(p, x) == Goto("done") /\ res' = [res EXCEPT !.st = "ok", !.pos = p, !.x = x]
Fail(e) == Goto("done") /\ res' = [res EXCEPT !.st = "err", !.e = e]
KeepRes == UNCHANGED res
KeepView == UNCHANGED <<buf, pos, lim>>
View(b, p, l) == buf' = b /\ pos' = p /\ lim' = l
Total == Len(Case.bufs[1])
E0(k) == Err(k, 0, <<>>, "")

At(p) == ph = p /\ ctl.op = "idle"
Got(p) == ph = p /\ ctl.op = "ret" /\ Len(stk) = 0
Broke(p) == ph = p /\ ctl.op = "err"
Sum == ctl.s

----------------------------------------------------------------------------
(* Facts of the metadata                                                      *)
ParamNames == <<"Address", "Call", "Extra", "Signature">>
RECURSIVE LastParam(_, _, _)
LastParam(ps, name, i) == IF i = 0 THEN <<>>
                          ELSE IF ps[i].name = name THEN ps[i].ty ELSE LastParam(ps, name, i - 1)
ByteSequence(id) == /\ Resolvable(id) /\ Ty(id).def = "Sequence" /\ Resolvable(Ty(id).ty)
                    /\ Ty(Ty(id).ty).def = "Primitive" /\ Ty(Ty(id).ty).prim = "U8"
XFail(e) == [ok |-> FALSE, e |-> e, a |-> 0, c |-> 0, s |-> 0, x |-> 0]
NotExtrinsic(id) == XFail(Err("UnexpectedExtrinsicType", id, <<>>, ""))
XUnresolved(id) == XFail(Wrap("ExtrinsicTypeNotResolved", ENotResolved(id)))
ParamsOf(t) ==
  LET ps == t.params
      a == LastParam(ps, "Address", Len(ps))
      k == LastParam(ps, "Call", Len(ps))
      x == LastParam(ps, "Extra", Len(ps))
      s == LastParam(ps, "Signature", Len(ps))
  IN IF Len(a) = 0 THEN XFail(E0("NoAddressParam"))
     ELSE IF Len(k) = 0 THEN XFail(E0("NoCallParam"))
     ELSE IF Len(x) = 0 THEN XFail(E0("NoExtraParam"))
     ELSE IF Len(s) = 0 THEN XFail(E0("NoSignatureParam"))
     ELSE [ok |-> TRUE, e |-> NoErr, a |-> a[1], c |-> k[1], s |-> s[1], x |-> x[1]]
SeqParams(t, id, seqid) ==              \* t carries the parameters, seqid must be bytes
  LET q == Ty(seqid) IN
  IF q.def # "Sequence" THEN NotExtrinsic(id)
  ELSE IF ~Resolvable(q.ty) THEN XUnresolved(q.ty)
  ELSE IF ByteSequence(seqid) THEN ParamsOf(t) ELSE NotExtrinsic(id)
XParams ==
  IF Meta.v = 15 THEN [ok |-> TRUE, e |-> NoErr, a |-> Meta.xp.a, c |-> Meta.xp.c,
                       s |-> Meta.xp.s, x |-> Meta.xp.e]
  ELSE LET hk == Husk(Meta.xty, {}) IN
       IF ~hk.ok THEN XFail(Wrap("ExtrinsicTypeNotResolved", hk.e))
       ELSE LET t == Ty(hk.id) IN
            CASE t.def = "Sequence" -> SeqParams(t, hk.id, hk.id)
              [] t.def = "Composite" /\ Len(t.fields) = 1 ->
                   IF ~Resolvable(t.fields[1].ty) THEN XUnresolved(t.fields[1].ty)
                   ELSE SeqParams(t, hk.id, t.fields[1].ty)
              [] OTHER -> NotExtrinsic(hk.id)
MetaWrap(e) == [e EXCEPT !.w = IF @ = "" THEN "MetaStructure" ELSE "MetaStructure/" \o @]

RECURSIVE FirstSystem(_, _)
FirstSystem(ps, i) == IF i > Len(ps) THEN 0
                      ELSE IF ps[i].name = "System" THEN i ELSE FirstSystem(ps, i + 1)
RECURSIVE LastVersion(_, _)
LastVersion(cs, i) == IF i = 0 THEN 0
                      ELSE IF cs[i].name = "Version" THEN i ELSE LastVersion(cs, i - 1)

(* Reading the version constant: a sub-program returning to ph "vret".        *)
UintNames == {"U8", "U16", "U32", "U64", "U128"}
IsSpecVersion(s) == s.k = "leaf" /\ s.ty \in UintNames /\ s.sp = "SpecVersion"
IsSpecName(s) == s.k = "leaf" /\ s.ty = "Text" /\ s.sp = "SpecName"
VersionErr(k) == IF Case.entry = "mver" THEN E0(k) ELSE Wrap("MetaStructure", E0(k))

VersionFind ==
  /\ At("ver")
  /\ LET i == FirstSystem(Meta.pallets, 1) IN
     IF i = 0 THEN Fail(VersionErr("NoSystemPallet")) /\ KeepView /\ UNCHANGED env
     ELSE LET cs == Meta.pallets[i].consts
              k == LastVersion(cs, Len(cs)) IN
          IF k = 0 THEN Fail(VersionErr("NoVersionInConstants")) /\ KeepView /\ UNCHANGED env
          ELSE /\ env' = [env EXCEPT !.vbytes = cs[k].value, !.save = pos]
               /\ View(0, 0, Len(cs[k].value))
               /\ Parse("veritem", cs[k].ty, "None")
               /\ KeepRes
  /\ Quiet /\ UNCHANGED <<c, stk>>

(* The facts, from the summaries of the fields, in order; duplicates refused. *)
RECURSIVE FactsFrom(_, _, _, _)
FactsFrom(kids, i, v, n) ==
  IF i > Len(kids)
  THEN IF Len(v) = 0 THEN [ok |-> FALSE, e |-> "NoSpecVersionIdentifier", v |-> v, n |-> n]
       ELSE IF Len(n) = 0 THEN [ok |-> FALSE, e |-> "NoSpecNameIdentifier", v |-> v, n |-> n]
       ELSE [ok |-> TRUE, e |-> "", v |-> v, n |-> n]
  ELSE IF IsSpecVersion(kids[i])
       THEN IF Len(v) > 0 THEN [ok |-> FALSE, e |-> "SpecVersionIdentifierTwice", v |-> v, n |-> n]
            ELSE FactsFrom(kids, i + 1, <<kids[i].v>>, n)
  ELSE IF IsSpecName(kids[i])
       THEN IF Len(n) > 0 THEN [ok |-> FALSE, e |-> "SpecNameIdentifierTwice", v |-> v, n |-> n]
            ELSE FactsFrom(kids, i + 1, v, <<kids[i].v>>)
  ELSE FactsFrom(kids, i + 1, v, n)

VersionRead ==
  /\ Got("veritem")
  /\ IF pos # lim THEN Fail(VersionErr("RuntimeVersionNotDecodeable")) /\ KeepView /\ UNCHANGED env
     ELSE IF Sum.k # "comp"
          THEN Fail(VersionErr("UnexpectedRuntimeVersionFormat")) /\ KeepView /\ UNCHANGED env
     ELSE LET f == FactsFrom(Sum.kids, 1, <<>>, <<>>) IN
          IF ~f.ok THEN Fail(VersionErr(f.e)) /\ KeepView /\ UNCHANGED env
          ELSE /\ Goto("vret") /\ KeepRes
               /\ View(1, env.save, Total)
               /\ env' = [env EXCEPT !.ver = Trim(f.v[1]), !.vname = f.n[1], !.vbytes = <<>>]
  /\ Quiet /\ UNCHANGED <<c, stk>>

VersionUndecodable ==
  /\ Broke("veritem")
  /\ Fail(VersionErr("RuntimeVersionNotDecodeable"))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Single-item entries                                                        *)
Widths == <<1, 2, 4, 8, 16>>
StartItem ==
  /\ At("start") /\ Case.entry \in {"at", "all"}
  /\ Parse("item", Case.ty, "None")
  /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>
ItemDone ==
  /\ Got("item")
  /\ IF Case.entry = "all" /\ pos # lim THEN Fail(ELeftBlob(pos)) ELSE Ok(pos, <<>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
ItemFailed ==
  /\ Broke("item") /\ Fail(ctl.e)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* One item decoded by its own step, in the state given: hint, compact and    *)
(* types passed on the way. A primitive on its own carries no description.     *)
StartStep ==
  /\ At("start") /\ Case.entry \in {"dwt", "prim"}
  /\ ph' = "item"
  /\ ctl' = DecCtl(Case.ty, Aux.h, Aux.c, AuxIds, Case.entry = "prim")
  /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>
LoneStep ==
  /\ At("start") /\ Case.entry \in StepEntries
  /\ LET o == StepResult IN IF o.ok THEN Ok(o.pos, o.x) ELSE Fail(o.e)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* find_compact for the width Case.ty (bytes)                                 *)
LoneCompact ==
  /\ At("start") /\ Case.entry = "cmp"
  /\ LET k == CompactHere(pos, Case.ty) IN
     IF k.ok THEN Ok(pos + k.len, <<k.val>>) ELSE Fail(CompactErr(pos))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* The u64-store bit sequence as decoded on 32-bit targets; Case.ty: 0 Lsb0,  *)
(* 1 Msb0. Same bits, end and refusals as DecBits with 8-byte elements.       *)
BitBytes(bits, sb) == LET bytes == bits[1] * 8192 + ((bits[2] + 7) \div 8)
                      IN ((bytes + sb - 1) \div sb) * sb
Bits32 ==
  /\ At("start") /\ Case.entry = "bit32"
  /\ LET k == CompactHere(pos, 4) IN
     IF ~k.ok THEN Fail(CompactErr(pos))
     ELSE LET bits == PairOfBytes(k.val)
              need == k.len + BitBytes(bits, 8) IN
          IF ~CanRead(pos, need) THEN Fail(ReadErr(pos, need))
          ELSE Ok(pos + need, <<[b \in 1..PairInt(bits) |->
                  BitOf(Data, pos + k.len, 8, IF Case.ty = 0 THEN "Lsb0" ELSE "Msb0", b - 1)]>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* Era codec on its own: era, bytes used, encoding of the era.                *)
EraEncoding(era) ==
  IF Len(era) = 0 THEN <<0>>
  ELSE LET period == era[1]
           q == EraQuant(period)
           lg == CHOOSE n \in 1..15 : Pow2(n + 1) = period
           code == lg + (era[2] \div q) * 16
       IN <<code % 256, code \div 256>>
LoneEra ==
  /\ At("start") /\ Case.entry = "era"
  /\ IF Total = 0 THEN Fail(E0("Codec"))
     ELSE IF Data[1] = 0 THEN Ok(1, <<<<>>, <<0>>>>)
     ELSE IF Total = 1 THEN Fail(E0("Codec"))
     ELSE IF ~EraOk(Data[1], Data[2]) THEN Fail(E0("Codec"))
     ELSE LET era == <<EraPeriod(Data[1], Data[2]), EraPhase(Data[1], Data[2])>>
          IN Ok(2, <<era, EraEncoding(era)>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

LoneBalance ==        \* amount of Case.ty bytes, Case.pos decimals, unit
  /\ At("start") /\ Case.entry = "bal"
  /\ Ok(0, PrintedBytes(Case.bufs[1], Case.pos, Utf8Str(Case.bufs[2])))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Metadata facts as entries                                                  *)
StartMeta ==
  /\ At("start") /\ Case.entry \in {"mver", "mcall", "mparams", "mexts"}
  /\ CASE Case.entry = "mver" -> Goto("ver") /\ KeepRes
       [] Case.entry = "mcall" -> IF XParams.ok THEN Ok(0, <<XParams.c>>) ELSE Fail(XParams.e)
       [] Case.entry = "mparams" ->
            IF XParams.ok THEN Ok(0, <<XParams.a, XParams.c, XParams.s, XParams.x, Meta.xver>>)
            ELSE Fail(XParams.e)
       [] Case.entry = "mexts" ->
            Ok(0, [i \in 1..Len(Meta.exts) |-> <<Meta.exts[i].id, Meta.exts[i].ty, Meta.exts[i].add>>])
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
MetaVersionDone ==
  /\ At("vret") /\ Case.entry = "mver"
  /\ Ok(0, <<Dec(env.ver), env.vname>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Signable transactions                                                      *)
Marked == {"tx", "dcall", "dext", "mark"}
(* Split at the length prefix.                                                *)
Mark ==
  /\ At("start") /\ Case.entry \in Marked
  /\ LET k == CompactAt(Data, 0, Total, 4) IN
     IF ~k.ok \/ ~PairWithin(k.len, PairOfBytes(k.val), Total)
     THEN Fail(E0("CutSignable")) /\ KeepView /\ UNCHANGED env
     ELSE LET es == k.len + PairInt(PairOfBytes(k.val)) IN
          /\ env' = [env EXCEPT !.cs = k.len, !.es = es]
          /\ CASE Case.entry = "mark" -> Ok(0, <<k.len, es>>) /\ KeepView
               [] Case.entry = "dcall" -> Goto("call") /\ View(1, k.len, es) /\ KeepRes
               [] OTHER -> Goto("ext") /\ View(1, es, Total) /\ KeepRes
  /\ Quiet /\ UNCHANGED <<c, stk>>
StartUnmarked ==
  /\ At("start") /\ Case.entry \in {"txu", "call", "ext"}
  /\ Goto(IF Case.entry = "ext" THEN "ext" ELSE "call")
  /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* The call. In "tx" a failing call is part of an otherwise good result.      *)
CallFail(e) ==
  IF Case.entry = "tx"
  THEN Goto("done") /\ res' = [res EXCEPT !.st = "ok", !.cst = "err", !.ce = e]
  ELSE Fail(e)
CallStart ==
  /\ At("call")
  /\ IF XParams.ok
     THEN Parse("callitem", XParams.c, "None") /\ Say(<<TPart("call")>>) /\ KeepRes
     ELSE CallFail(MetaWrap(XParams.e)) /\ Quiet
  /\ KeepView /\ UNCHANGED <<c, stk, env>>
CallDone ==
  /\ Got("callitem")
  /\ IF Sum.k # "call" THEN CallFail(Err("NotACall", XParams.c, <<>>, ""))
     ELSE CASE Case.entry \in {"tx", "dcall"} ->
                 IF pos # env.es
                 THEN CallFail(Err("SomeDataNotUsedCall", pos, <<env.es>>, ""))
                 ELSE Goto("done") /\ res' = [res EXCEPT !.st = "ok", !.cst = "ok"]
            [] Case.entry = "call" -> Ok(pos, <<>>)
            [] Case.entry = "txu" -> Goto("ext") /\ KeepRes
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
CallBroke ==
  /\ Broke("callitem") /\ CallFail(Wrap("Parsing", ctl.e))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* The extensions: all types in order, then all additional ones in order.     *)
NExt == Len(Meta.exts)
ExtStart ==
  /\ At("ext") /\ env.k < 2 * NExt
  /\ LET e == Meta.exts[(env.k % NExt) + 1] IN
     Parse("extitem", IF env.k < NExt THEN e.ty ELSE e.add, HintOfExt(e.id))
  /\ Say(<<TPart("ext")>>)
  /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>
ExtDone ==
  /\ Got("extitem")
  /\ env' = [env EXCEPT !.k = @ + 1, !.exts = Append(@, Sum)]
  /\ Goto("ext")
  /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk>>
ExtBroke ==
  /\ Broke("extitem") /\ Fail(Wrap("Parsing", ctl.e))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
ExtEnd ==
  /\ At("ext") /\ env.k = 2 * NExt
  /\ IF pos # lim THEN Fail(Err("SomeDataNotUsedExtensions", pos, <<>>, ""))
     ELSE Goto("ver") /\ KeepRes
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

(* The checks on what the extensions say. An extension speaks for itself or,  *)
(* if it is a struct of a single field, through that field.                   *)
Voice(s) == IF s.k = "comp" THEN (IF Len(s.kids) = 1 THEN <<s.kids[1]>> ELSE <<>>) ELSE <<s>>
RECURSIVE Voices(_, _)
Voices(ss, i) == IF i > Len(ss) THEN <<>> ELSE Voice(ss[i]) \o Voices(ss, i + 1)
IsEra(s) == s.k = "leaf" /\ s.ty = "Era"
IsGenesis(s) == s.k = "leaf" /\ s.ty = "H256" /\ s.sp = "GenesisHash"
IsBlock(s) == s.k = "leaf" /\ s.ty = "H256" /\ s.sp = "BlockHash"
(* the first voice that repeats a kind already heard, if any                  *)
VoiceKind(s) == CASE IsEra(s) -> "Era" [] IsGenesis(s) -> "GenesisHash" [] IsBlock(s) -> "BlockHash"
                  [] IsSpecVersion(s) -> "SpecVersion" [] OTHER -> ""
Repeats(vs) == {i \in 1..Len(vs) : VoiceKind(vs[i]) # "" /\
                                   \E j \in 1..(i - 1) : VoiceKind(vs[j]) = VoiceKind(vs[i])}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
HeardOf(vs, K) == SelectSeq(vs, LAMBDA s : VoiceKind(s) = K)
ExtVerdict ==
  LET vs == Voices(env.exts, 1)
      rep == Repeats(vs)
      ver == HeardOf(vs, "SpecVersion")
      gen == HeardOf(vs, "GenesisHash")
      blk == HeardOf(vs, "BlockHash")
      era == HeardOf(vs, "Era")
  IN IF rep # {} THEN E0(VoiceKind(vs[Least(rep)]) \o "Twice")
     ELSE IF Len(ver) = 0 THEN E0("NoSpecVersion")
     ELSE IF Trim(ver[1].v) # env.ver
          THEN Err("WrongSpecVersion", 0, <<>>, Dec(ver[1].v) \o "/" \o Dec(env.ver))
     ELSE IF Len(gen) = 0 THEN E0("NoGenesisHash")
     ELSE IF Len(Case.gh) = 1 /\ gen[1].v # Case.gh[1]
          THEN Err("WrongGenesisHash", 0, <<>>, Hex(gen[1].v) \o "/" \o Hex(Case.gh[1]))
     ELSE IF Len(era) = 1 /\ era[1].v = <<>> /\ Len(blk) = 1 /\ gen[1].v # blk[1].v
          THEN E0("ImmortalHashMismatch")
     ELSE NoErr
ExtCheck ==
  /\ At("vret") /\ Case.entry # "mver"
  /\ LET e == ExtVerdict IN
     IF e # NoErr THEN Fail(e) /\ KeepView
     ELSE IF Case.entry = "tx" THEN Goto("call") /\ KeepRes /\ View(1, env.cs, env.es)
     ELSE Ok(IF Case.entry = "ext" THEN pos ELSE 0, <<>>) /\ KeepView
  /\ Quiet /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Storage entries                                                            *)
St == Case.st[1]                   \* [plain, h (hashers), key, val, docs]
KeyPrefix == 32
HashLen(h) == CASE h \in {"Blake2_128", "Twox128", "Blake2_128Concat"} -> 16
                [] h \in {"Blake2_256", "Twox256"} -> 32
                [] h = "Twox64Concat" -> 8
                [] h = "Identity" -> 0
Opaque(h) == h \in {"Blake2_128", "Blake2_256", "Twox128", "Twox256"}
HashOf(h, b) == IF h = "Twox64Concat" THEN Twox64(b) ELSE Blake128(b)
THash(h, v, id) == Tok("hash", id, h, <<>>, "", v, "", <<>>, <<>>, <<>>)
TKey(kind, info) == Tok("key", 0, kind, <<>>, "", <<>>, "", info, <<>>, <<>>)

StorageStart ==
  /\ At("start") /\ Case.entry = "storage"
  /\ IF Total < KeyPrefix THEN Fail(E0("KeyShorterThanPrefix")) /\ KeepView
     ELSE IF St.plain
          THEN IF Total # KeyPrefix THEN Fail(E0("PlainKeyExceedsPrefix")) /\ KeepView
               ELSE Goto("value") /\ KeepRes /\ KeepView
     ELSE Goto("key") /\ KeepRes /\ View(1, KeyPrefix, Total)
  /\ Say(IF Total = KeyPrefix /\ St.plain THEN <<TKey("Plain", <<>>)>> ELSE <<>>)
  /\ UNCHANGED <<c, stk, env>>
KeyEntry ==
  /\ At("start") /\ Case.entry = "key"
  /\ Goto("key") /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>
KeyBad(e) == Fail(Wrap("ParsingKey", e))
Single == Len(St.h) = 1
PartTy(i) == IF Single THEN St.key ELSE Ty(St.key).tys[i]
KeyStart ==
  /\ At("key")
  /\ IF Single THEN Goto("part") /\ KeepRes /\ Say(<<TKey("SingleHash", <<>>)>>)
     ELSE IF ~Resolvable(St.key) THEN KeyBad(ENotResolved(St.key)) /\ Quiet
     ELSE IF Ty(St.key).def # "Tuple" THEN Fail(E0("MultipleHashesNotATuple")) /\ Quiet
     ELSE IF Len(Ty(St.key).tys) # Len(St.h) THEN Fail(E0("MultipleHashesNumberMismatch")) /\ Quiet
     ELSE Goto("part") /\ KeepRes /\ Say(<<TKey("TupleHash", <<InfoOf(Ty(St.key))>>)>>)
  /\ env' = [env EXCEPT !.k = 1]
  /\ KeepView /\ UNCHANGED <<c, stk>>
PartOpaque ==
  /\ At("part") /\ env.k <= Len(St.h) /\ Opaque(St.h[env.k])
  /\ LET h == St.h[env.k]  w == HashLen(h) IN
     IF ~CanRead(pos, w) THEN KeyBad(ReadErr(pos, w)) /\ Quiet /\ KeepView /\ UNCHANGED env
     ELSE /\ Say(<<THash(h, Slice(pos, w), PartTy(env.k))>>)
          /\ View(1, pos + w, lim)
          /\ env' = [env EXCEPT !.k = @ + 1]
          /\ Goto("part") /\ KeepRes
  /\ UNCHANGED <<c, stk>>
PartTransparent ==
  /\ At("part") /\ env.k <= Len(St.h) /\ ~Opaque(St.h[env.k])
  /\ LET h == St.h[env.k]  w == HashLen(h) IN
     IF h # "Identity" /\ ~CanRead(pos, w)
     THEN KeyBad(ReadErr(pos, w)) /\ Quiet /\ KeepView /\ UNCHANGED env
     ELSE /\ env' = [env EXCEPT !.hash = Slice(pos, w), !.save = pos + w]
          /\ View(1, pos + w, lim)
          /\ Parse("partitem", PartTy(env.k), "None")
          /\ Say(<<TPart("key")>>) /\ KeepRes
  /\ UNCHANGED <<c, stk>>
PartDone ==
  /\ Got("partitem")
  /\ LET h == St.h[env.k] IN
     IF h # "Identity" /\ HashOf(h, SubSeq(Data, env.save + 1, pos)) # env.hash
     THEN Fail(E0("KeyPartHashMismatch")) /\ UNCHANGED env
     ELSE Goto("part") /\ KeepRes /\ env' = [env EXCEPT !.k = @ + 1]
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk>>
PartBroke ==
  /\ Broke("partitem") /\ KeyBad(ctl.e)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
KeyEnd ==
  /\ At("part") /\ env.k > Len(St.h)
  /\ IF pos # lim THEN Fail(E0("KeyPartsUnused"))
     ELSE IF Case.entry = "key" THEN Ok(0, <<>>) ELSE Goto("value") /\ KeepRes
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
ValueStart ==
  /\ At("value")
  /\ Parse("valueitem", St.val, "None")
  /\ View(2, 0, Len(Case.bufs[2]))
  /\ Say(<<Tok("part", 0, "value", <<>>, JoinStr(St.docs, "\n"), <<>>, "", <<>>, <<>>, <<>>)>>)
  /\ KeepRes /\ UNCHANGED <<c, stk, env>>
ValueDone ==
  /\ Got("valueitem")
  /\ IF pos # lim THEN Fail(Wrap("ParsingValue", ELeftBlob(pos))) ELSE Ok(0, <<>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
ValueBroke ==
  /\ Broke("valueitem") /\ Fail(Wrap("ParsingValue", ctl.e))
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Unchecked extrinsics                                                       *)
UxBad(e) == Fail(Wrap("Parsing", e))
PartNames == <<"address", "signature", "extra", "call">>
UxStart ==
  /\ At("start") /\ Case.entry = "uxt"
  /\ IF ~XParams.ok THEN Fail(MetaWrap(XParams.e)) /\ KeepView /\ UNCHANGED env /\ Quiet
     ELSE LET k == CompactAt(Data, 0, Total, 4) IN
     IF ~k.ok THEN Fail(E0("FormatNoCompact")) /\ KeepView /\ UNCHANGED env /\ Quiet
     ELSE LET len == PairOfBytes(k.val)
              end == PairAdd(len, k.len)                 \* may exceed 31 bits
              tot == PairOfInt(Total)
          IN IF end[1] > tot[1] \/ (end[1] = tot[1] /\ end[2] > tot[2])
             THEN UxBad(EShort(Total, PairSub(end, Total))) /\ KeepView /\ UNCHANGED env /\ Quiet
             ELSE IF end # tot THEN UxBad(ELeftBlob(PairInt(end))) /\ KeepView /\ UNCHANGED env /\ Quiet
             ELSE IF PairInt(len) = 0 THEN UxBad(EShort(k.len, PairOfInt(1))) /\ KeepView /\ UNCHANGED env /\ Quiet
             ELSE LET b == Data[k.len + 1] IN
                  IF b % 128 # Meta.xver
                  THEN /\ Fail(Err("VersionMismatch", 0, <<b, Meta.xver>>, ""))
                       /\ KeepView /\ UNCHANGED env /\ Quiet
                  ELSE /\ View(1, k.len + 1, Total)
                       /\ env' = [env EXCEPT !.k = IF b >= 128 THEN 1 ELSE 4]
                       /\ Goto("ux") /\ KeepRes
                       /\ Say(<<Tok("part", 0, IF b >= 128 THEN "signed" ELSE "unsigned",
                                    <<>>, "", <<>>, "", <<>>, <<>>, <<>>)>>)
  /\ UNCHANGED <<c, stk>>
UxPart ==
  /\ At("ux") /\ env.k <= 4
  /\ Parse("uxitem", CASE env.k = 1 -> XParams.a [] env.k = 2 -> XParams.s
                       [] env.k = 3 -> XParams.x [] env.k = 4 -> XParams.c, "None")
  /\ Say(<<TPart(PartNames[env.k])>>)
  /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk, env>>
UxPartDone ==
  /\ Got("uxitem") /\ env.k < 4
  /\ Goto("ux") /\ env' = [env EXCEPT !.k = @ + 1]
  /\ Quiet /\ KeepRes /\ KeepView /\ UNCHANGED <<c, stk>>
UxCallDone ==
  /\ Got("uxitem") /\ env.k = 4
  /\ IF Sum.k # "call" THEN Fail(Err("UnexpectedCallTy", XParams.c, <<>>, ""))
     ELSE IF pos # lim THEN UxBad(ELeftBlob(pos))
     ELSE Ok(0, <<>>)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>
(* Deviation (known finding C16): the library does not look at the end.       *)
UxTailIgnored ==
  /\ Got("uxitem") /\ env.k = 4 /\ Sum.k = "call" /\ pos # lim
  /\ Ok(0, <<>>) /\ env' = [env EXCEPT !.dev = "uxt-tail"]
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk>>
UxBroke ==
  /\ Broke("uxitem") /\ UxBad(ctl.e)
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk, env>>

----------------------------------------------------------------------------
(* Memory that fails: a failed access ends the current part with an error,    *)
(* except that an unreadable length prefix is reported as such.               *)
EExternal == E0("External")
CanFail == Faulty /\ ~env.hit /\ ph # "done" /\ buf # 0
MemoryFailsInItem ==
  /\ CanFail /\ ctl.op \in {"dec", "next"}
  /\ Raise(EExternal)
  /\ env' = [env EXCEPT !.hit = TRUE]
  /\ UNCHANGED <<c, ph, buf, lim, res>>
MemoryFailsOutside ==
  /\ CanFail /\ ctl.op = "idle"
  /\ \/ At("start") /\ Case.entry \in Marked /\ Fail(E0("CutSignable"))
     \/ At("start") /\ Case.entry = "uxt" /\ Fail(E0("FormatNoCompact"))
     \/ At("start") /\ Case.entry = "uxt" /\ UxBad(EExternal)
     \/ At("start") /\ Case.entry \in {"cmp", "bit32", "pick", "bvp", "husk", "order", "prim", "dwt"} /\ Fail(EExternal)
     \/ ph \in {"key", "part"} /\ KeyBad(EExternal)
  /\ env' = [env EXCEPT !.hit = TRUE]
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk>>
MemoryFailsRereading ==       \* hashed key bytes are read again for the hash
  /\ CanFail /\ Got("partitem") /\ St.h[env.k] # "Identity"
  /\ KeyBad(EExternal)
  /\ env' = [env EXCEPT !.hit = TRUE]
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, stk>>
(* Deviation (known finding C18): a failure while looking whether an enum is  *)
(* a call, event or signature makes it an ordinary enum.                      *)
MemoryFailureSwallowed ==
  /\ CanFail /\ ctl.op = "dec" /\ Resolvable(ctl.id) /\ ~ctl.blind
  /\ Hinted(T) \in {"Call", "Event", "MultiSignature"} /\ T.def = "Variant"
  /\ ctl' = [ctl EXCEPT !.blind = TRUE]
  /\ env' = [env EXCEPT !.hit = (Case.flt = "once"), !.dev = "detect-fault"]
  /\ Quiet /\ KeepView /\ UNCHANGED <<c, ph, stk, res>>

----------------------------------------------------------------------------
Deviations == UxTailIgnored \/ MemoryFailureSwallowed
MemoryFailures == MemoryFailsInItem \/ MemoryFailsOutside \/ MemoryFailsRereading
SubPrograms == VersionFind \/ VersionRead \/ VersionUndecodable
SingleItems == StartStep \/ LoneStep \/ StartItem \/ ItemDone \/ ItemFailed \/ LoneCompact \/ Bits32 \/ LoneEra \/ LoneBalance
MetaFacts == StartMeta \/ MetaVersionDone
Transactions == Mark \/ StartUnmarked \/ CallStart \/ CallDone \/ CallBroke
                \/ ExtStart \/ ExtDone \/ ExtBroke \/ ExtEnd \/ ExtCheck
StorageEntries == StorageStart \/ KeyEntry \/ KeyStart \/ PartOpaque \/ PartTransparent
                  \/ PartDone \/ PartBroke \/ KeyEnd \/ ValueStart \/ ValueDone \/ ValueBroke
Extrinsics == UxStart \/ UxPart \/ UxPartDone \/ UxCallDone \/ UxBroke

Step == ParserStep \/ SubPrograms \/ SingleItems \/ MetaFacts \/ Transactions
        \/ StorageEntries \/ Extrinsics
Next == Step \/ MemoryFailures \/ Deviations
=============================================================================
