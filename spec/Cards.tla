-------------------------------- MODULE Cards --------------------------------
(***************************************************************************)
(* The card writer: a pushdown machine that reads the tokens of a decoded    *)
(* value in order and writes one line (card) after the other.  One action    *)
(* per kind of token.  The machine is fed with a token sequence tks and the  *)
(* display settings set = [prefix, dec, unit, name, bal].                    *)
(*                                                                          *)
(* A card: i indent, c its line, d its line with type information, x the hex *)
(* form kept beside a byte text, or that of the key an identicon is drawn    *)
(* for (the drawing itself is the business of another library).              *)
(***************************************************************************)
EXTENDS Entries

VARIABLE card
(* card: i next token, st unfinished containers, slot where the next value    *)
(* goes, ended; out the cards written by the last step.                       *)

Slot(ind, bal, pre) == [ind |-> ind, bal |-> bal, pre |-> pre]
CardIdle == [on |-> FALSE, i |-> 1, st |-> <<>>, slot |-> Slot(0, FALSE, <<>>), out |-> <<>>]
CardStart(bal) == card' = [CardIdle EXCEPT !.on = TRUE, !.slot = Slot(0, bal, <<>>)]

----------------------------------------------------------------------------
(* Lines                                                                      *)
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
FlatInfo(i) == [d |-> i.d, p |-> JoinStr(i.p, " >> ")]
DocsInfo(d) == IF d = "" THEN <<>> ELSE <<[d |-> d, p |-> ""]>>
Unseen(is) == Len(is) = 1 /\ is[1].d = "?" /\ Len(is[1].p) = 0      \* not observable: none
FlatInfos(is) == IF Unseen(is) THEN <<>> ELSE [k \in 1..Len(is) |-> FlatInfo(is[k])]
OrNone(s) == IF s = "" THEN "None" ELSE s
InfoLine(f) == "(docs: " \o OrNone(f.d) \o ", path: " \o OrNone(f.p) \o ")"
RECURSIVE InfoLines(_, _, _)
InfoLines(fs, ind, i) == IF i > Len(fs) THEN ""
                         ELSE "\n" \o Spaces(ind) \o InfoLine(fs[i]) \o InfoLines(fs, ind, i + 1)
ElementInfo(fs) == IF Len(fs) = 0 THEN ""
                   ELSE ", element info: [" \o JoinStr([k \in 1..Len(fs) |-> InfoLine(fs[k])], ",") \o "]"
Written(ind, line, fs, es, hex) ==
  LET head == Spaces(ind) \o line
  IN [i |-> ind, c |-> head, d |-> head \o ElementInfo(es) \o InfoLines(fs, ind, 1), x |-> hex]
Line(ind, label, what, fs) == Written(ind, label \o ": " \o what, fs, <<>>, "")

----------------------------------------------------------------------------
(* Values                                                                     *)
Alphabet58 == "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
RECURSIVE DivBy(_, _, _, _, _)
DivBy(b, i, rem, q, base) == IF i = 0 THEN <<q, rem>>
                             ELSE LET x == rem * 256 + b[i]
                                  IN DivBy(b, i - 1, x % base, <<x \div base>> \o q, base)
RECURSIVE InBase58(_, _)
InBase58(b, acc) == IF Len(b) = 0 THEN acc
                    ELSE LET r == DivBy(b, Len(b), 0, <<>>, 58)
                         IN InBase58(Trim(r[1]), SubSeq(Alphabet58, r[2] + 1, r[2] + 1) \o acc)
Reverse(b) == [k \in 1..Len(b) |-> b[Len(b) + 1 - k]]
RECURSIVE Ones(_, _)
Ones(b, i) == IF i > Len(b) \/ b[i] # 0 THEN "" ELSE "1" \o Ones(b, i + 1)
Base58(b) == Ones(b, 1) \o InBase58(Trim(Reverse(b)), "")
(* SS58: network prefix, key, two bytes of checksum                           *)
Ss58Prefix(p) == LET n == p % 16384 IN
                 IF n < 64 THEN <<n>> ELSE <<64 + ((n % 256) \div 4), (n \div 256) + 64 * (n % 4)>>
Ss58(key, p) == LET v == Ss58Prefix(p) \o key
                IN Base58(v \o SubSeq(Blake512(<<83, 83, 53, 56, 80, 82, 69>> \o v), 1, 2))
CharUtf8(b) ==
  LET n == b[1] + 256 * b[2] + 65536 * b[3] IN
  CASE n < 128 -> <<n>>
    [] n >= 128 /\ n < 2048 -> <<192 + n \div 64, 128 + (n % 64)>>
    [] n >= 2048 /\ n < 65536 -> <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    [] OTHER -> <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
BitText(v) == "[" \o JoinStr([k \in 1..Len(v) |-> IF v[k] = 1 THEN "1" ELSE "0"], ", ") \o "]"
BitLabel(ty) == LET o == SubSeq(ty, Len(ty) - 3, Len(ty))
                    w == SubSeq(ty, 8, Len(ty) - 4)
                IN "BitVec<u" \o w \o ", " \o o \o ">"
IsBits(ty) == Len(ty) > 6 /\ SubSeq(ty, 1, 6) = "BitVec"
Pretty(v, set) == LET p == PrintedBytes(v, set.dec, set.unit) IN p[1] \o " " \o p[2]
Lower(ty) == CASE ty = "U8" -> "u8" [] ty = "U16" -> "u16" [] ty = "U32" -> "u32"
               [] ty = "U64" -> "u64" [] ty = "U128" -> "u128"
               [] ty = "I8" -> "i8" [] ty = "I16" -> "i16" [] ty = "I32" -> "i32"
               [] ty = "I64" -> "i64" [] ty = "I128" -> "i128"
Keys == {"AccountId32", "PublicEd25519", "PublicSr25519", "PublicEcdsa"}
LeafText(tk, bal, set) ==       \* <<label, what>>
  LET v == tk.v  ty == tk.s IN
  CASE ty \in UintNames ->
         (CASE tk.sp = "None" -> <<Lower(ty), Dec(v)>>
            [] tk.sp = "Balance" -> IF bal THEN <<"Balance", Pretty(v, set)>> ELSE <<"Balance Raw", Dec(v)>>
            [] tk.sp = "Tip" -> <<"Tip", Pretty(v, set)>>
            [] tk.sp = "TipAsset" -> <<"Tip Asset", Dec(v)>>
            [] tk.sp = "Nonce" -> <<"Nonce", Dec(v)>>
            [] tk.sp = "SpecVersion" -> <<"Chain", set.name \o Dec(v)>>
            [] tk.sp = "TxVersion" -> <<"Tx Version", Dec(v)>>)
    [] ty = "H256" -> <<(CASE tk.sp = "GenesisHash" -> "Genesis Hash" [] tk.sp = "BlockHash" -> "Block Hash"
                           [] OTHER -> "H256"), Hex(v)>>
    [] ty \in {"H160", "H512"} -> <<ty, Hex(v)>>
    [] ty = "AccountId32" -> <<"Id", Ss58(v, set.prefix)>>
    [] ty = "PublicEd25519" -> <<"PublicKey Ed25519", Ss58(v, set.prefix)>>
    [] ty = "PublicSr25519" -> <<"PublicKey Sr25519", Ss58(v, set.prefix)>>
    [] ty = "PublicEcdsa" -> <<"PublicKey Ecdsa", Ss58(v, set.prefix)>>
    [] ty = "SignatureEd25519" -> <<"Signature Ed25519", Hex(v)>>
    [] ty = "SignatureSr25519" -> <<"Signature Sr25519", Hex(v)>>
    [] ty = "SignatureEcdsa" -> <<"Signature Ecdsa", Hex(v)>>
    [] ty \in PerThings -> <<ty, Dec(v)>>
    [] ty = "Bool" -> <<"Bool", IF v = <<1>> THEN "true" ELSE "false">>
    [] ty = "Char" -> <<"Char", Utf8Str(CharUtf8(v))>>
    [] ty \in {"I8", "I16", "I32", "I64", "I128"} -> <<Lower(ty), DecSigned(v)>>
    [] ty = "I256" -> <<"BigInt", DecSigned(v)>>
    [] ty = "U256" -> <<"BigUint", Dec(v)>>
    [] ty = "Text" -> <<IF tk.sp = "SpecName" THEN "Spec Name" ELSE "Text", Utf8Str(v)>>
    [] ty = "Era" -> <<"Era", IF v = <<>> THEN "Immortal"
                              ELSE "Mortal, phase: " \o ToString(v[2]) \o ", period: " \o ToString(v[1])>>
    [] IsBits(ty) -> <<BitLabel(ty), BitText(v)>>

----------------------------------------------------------------------------
(* Structure                                                                  *)
RECURSIVE EndFrom(_, _, _)
EndFrom(tks, i, depth) ==         \* the "end" of the sequence opened before token i
  IF tks[i].k = "end" THEN (IF depth = 0 THEN i ELSE EndFrom(tks, i + 1, depth - 1))
  ELSE EndFrom(tks, i + 1, IF tks[i].k = "seq" THEN depth + 1 ELSE depth)

CFrame(f, left, ind, bal, pre) == [f |-> f, left |-> left, no |-> 1, ind |-> ind, bal |-> bal,
                                   pre |-> pre, w |-> "", e |-> <<>>]
RECURSIVE Settle(_)
Settle(st) ==                     \* a value is finished
  IF Len(st) = 0 THEN st ELSE
  LET t == st[Len(st)]
      t2 == [t EXCEPT !.left = @ - 1]
  IN IF t2.left = 0 /\ t.f # "elems" THEN Settle(SubSeq(st, 1, Len(st) - 1))
     ELSE [st EXCEPT ![Len(st)] = t2]
SlotOf(st, old) == IF Len(st) = 0 THEN old
                   ELSE LET t == st[Len(st)] IN Slot(t.ind, t.bal, <<>>)
CardWrite(cards, st, next) ==
  card' = [card EXCEPT !.out = cards, !.st = st, !.i = next, !.slot = SlotOf(st, card.slot)]
Finished(cards, next) == CardWrite(cards, Settle(card.st), next)
Opened(cards, fr) == CardWrite(cards, Append(card.st, fr), card.i + 1)
CTop == card.st[Len(card.st)]
Sl == card.slot
AllInfo(tk) == Sl.pre \o FlatInfos(tk.i)

WriteLeaf(tk, set) ==
  /\ tk.k = "leaf"
  /\ LET t == LeafText(tk, Sl.bal, set)
     IN Finished(<<Written(Sl.ind, t[1] \o ": " \o t[2], AllInfo(tk), <<>>, IF tk.s \in Keys THEN Hex(tk.v) ELSE "")>>,
                 card.i + 1)
WriteEmptyEnum(tk) ==
  /\ tk.k = "emptyenum"
  /\ Finished(<<Written(Sl.ind, "Enum With No Variants", AllInfo(tk), <<>>, "")>>, card.i + 1)

(* A list of fields opened at indent ind after the given cards. A single      *)
(* unnamed field stands for itself; others get a line with name or number.    *)
Fields(tks, n, cards, ind, bal, pre, setind) ==
  IF n = 0 THEN Finished(cards, card.i + 1)
  ELSE IF n = 1 /\ tks[card.i + 1].t = <<>>
       THEN Opened(cards, CFrame("one", 1, ind, bal, pre))
  ELSE Opened(cards, CFrame("set", n, setind, bal, <<>>))
WriteComposite(tk, tks) ==
  /\ tk.k = "comp"
  /\ LET lone == tk.n = 1 /\ tks[card.i + 1].t = <<>>
         head == IF tk.n = 0 \/ lone THEN <<>>
                 ELSE <<Line(Sl.ind, "Struct", ToString(tk.n) \o " field(s)", AllInfo(tk))>>
     IN Fields(tks, tk.n, head, Sl.ind, Sl.bal, AllInfo(tk), Sl.ind + 1)
WriteVariant(tk, tks) ==
  /\ tk.k = "var"
  /\ Fields(tks, tk.n,
        <<Written(Sl.ind, "Enum", AllInfo(tk), <<>>, ""),
          Line(Sl.ind + 1, "Enum Variant Name", tk.s, DocsInfo(tk.d))>>,
        Sl.ind + 2, Sl.bal, <<>>, Sl.ind + 2)
BalancePallets == {"Balances", "Staking"}
WritePalletItem(tk, tks) ==
  /\ tk.k \in {"call", "event"}
  /\ Fields(tks, tk.n,
        <<Line(Sl.ind, "Pallet", tk.t[1], <<FlatInfo(tk.e[1])>>),
          Line(Sl.ind + 1, IF tk.k = "call" THEN "Call" ELSE "Event", tk.s, DocsInfo(tk.d))>>,
        Sl.ind + 2, tk.t[1] \in BalancePallets, <<>>, Sl.ind + 2)
WriteField(tk) ==
  /\ tk.k = "field"
  /\ LET t == CTop IN
     IF t.f = "one"
     THEN card' = [card EXCEPT !.i = @ + 1, !.out = <<>>,
                               !.slot = Slot(t.ind, t.bal, t.pre \o DocsInfo(tk.d))]
     ELSE card' = [card EXCEPT !.i = @ + 1, !.st[Len(card.st)].no = @ + 1,
                     !.out = <<IF Len(tk.t) = 1 THEN Line(t.ind, "Field Name", tk.t[1], DocsInfo(tk.d))
                               ELSE Line(t.ind, "Field Number", ToString(t.no), DocsInfo(tk.d))>>,
                     !.slot = Slot(t.ind + 1, t.bal, <<>>)]
WriteTuple(tk) ==
  /\ tk.k = "tuple"
  /\ IF tk.n = 0 THEN Finished(<<>>, card.i + 1)
     ELSE Opened(<<Line(Sl.ind, "Tuple", ToString(tk.n) \o " element(s)", AllInfo(tk))>>,
                 CFrame("tuple", tk.n, Sl.ind + 1, Sl.bal, <<>>))
ByteText(ind, b, fs, es) ==
  LET line == IF Utf8(b) THEN "Text: " \o Utf8Str(b) ELSE "Sequence u8: " \o Hex(b)
  IN Written(ind, line, fs, es, Hex(b))
WriteSequence(tk, tks) ==
  /\ tk.k = "seq"
  /\ LET e == EndFrom(tks, card.i + 1, 0)
         inner == Len(card.st) > 0 /\ CTop.f = "elems" /\ CTop.w = "VecU8"
         w == tks[e].s
         es == FlatInfos(IF inner THEN CTop.e ELSE tk.e)
     IN IF inner \/ w = "U8"
        THEN Finished(<<ByteText(Sl.ind, [k \in 1..(e - card.i - 1) |-> tks[card.i + k].v[1]],
                                 AllInfo(tk), es)>>, e + 1)
        ELSE Opened(<<Written(Sl.ind, "Sequence: " \o ToString(tk.n) \o " element(s)", AllInfo(tk), es, "")>>,
                    [CFrame("elems", tk.n, Sl.ind + 1, Sl.bal, <<>>) EXCEPT !.w = w, !.e = tks[e].e])
WriteEnd(tk) ==
  /\ tk.k = "end"
  /\ CardWrite(<<>>, Settle(SubSeq(card.st, 1, Len(card.st) - 1)), card.i + 1)
(* A new item: extensions always show balances with their unit.               *)
WritePart(tk, bal) ==
  /\ tk.k = "part"
  /\ card' = [card EXCEPT !.i = @ + 1, !.out = <<>>, !.slot = Slot(0, bal \/ tk.s = "ext", <<>>)]

CardStep(tks, set) ==
  /\ card.on /\ card.i <= Len(tks)
  /\ LET tk == tks[card.i] IN
       \/ WriteLeaf(tk, set) \/ WriteEmptyEnum(tk) \/ WriteComposite(tk, tks)
       \/ WriteVariant(tk, tks) \/ WritePalletItem(tk, tks) \/ WriteField(tk)
       \/ WriteTuple(tk) \/ WriteSequence(tk, tks) \/ WriteEnd(tk) \/ WritePart(tk, set.bal)
CardsFinished(tks) == card.on /\ card.i > Len(tks)

(* Invariants of the card machine                                             *)
CardsShape == /\ card.slot.ind >= 0
              /\ \A k \in 1..Len(card.st) : card.st[k].left >= 0
              /\ \A k \in 1..Len(card.out) : card.out[k].i >= 0
=============================================================================
