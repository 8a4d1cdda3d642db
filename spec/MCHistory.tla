------------------------------ MODULE MCHistory ------------------------------
(***************************************************************************)
(* Nothing is kept between calls: a call is answered the same whatever was    *)
(* asked before it - other data, metadata with other types under the same     *)
(* numbers, the same metadata, calls that failed, memory that failed.         *)
(* Histories of eight calls out of all pieces of MCFault.                     *)
(***************************************************************************)
EXTENDS MCFault, SequencesExt

(* The same numbers, other types: widths, order of variants, length of lists. *)
OtherPrim(p) == CASE p = "U8" -> "U16" [] p = "U16" -> "I16" [] p = "U32" -> "U64" [] p = "Str" -> "Bool" [] OTHER -> "U8"
OtherType(t) ==
  CASE t.def = "Primitive" -> [t EXCEPT !.prim = OtherPrim(@)]
    [] t.def = "Variant" -> [t EXCEPT !.variants = [i \in 1..Len(@) |-> [@[i] EXCEPT !.name = "v" \o ToString(i), !.docs = <<"other">>]],
                                      !.docs = <<"type">>]
    [] t.def = "Composite" /\ Len(t.fields) = 1 -> [t EXCEPT !.fields[1].name = <<"nonce">>, !.path = IF @ = <<>> THEN <<"x", "Percent">> ELSE <<>>]
    [] t.def = "Array" -> [t EXCEPT !.len = <<0, 2>>]
    [] OTHER -> t
Other(m) == [m EXCEPT !.reg = [i \in 1..Len(@) |-> OtherType(@[i])], !.xver = 5]
Alt(k) == [k EXCEPT !.m = Other(@)]

PieceSeq == SetToSeq(Pieces)
NPieces == Len(PieceSeq)
Histories == {n \in 0..(NPieces * NPieces - 1) : Drawn(n)}
PieceA(n) == PieceSeq[(n % NPieces) + 1]
PieceB(n) == PieceSeq[(n \div NPieces) + 1]
HInit == PickInit /\ \E n \in Histories : start = [n |-> n]
Asked(n) ==
  LET a == CaseOf(PieceA(n), "")
      b == CaseOf(PieceB(n), "")
  IN <<a, Alt(b), a, CaseOf(PieceB(n), IF n % 2 = 0 THEN "all" ELSE "once"), a, Alt(a), Alt(b), a>>
HNext == (ph = "pick" /\ RunAll(Asked(start.n))) \/ RunStep \/ NextCase \/ Ended
HSpec == HInit /\ [][HNext]_mvars
----------------------------------------------------------------------------
Clear == outs[1].dev = "" /\ outs[2].dev = ""
Same(i, j) == outs[i].dev = "" /\ outs[j].dev = "" => outs[i].res = outs[j].res /\ outs[i].toks = outs[j].toks
SameAgain == AtEnd => Same(1, 3) /\ Same(1, 5) /\ Same(1, 8) /\ Same(2, 7)
(* What a call starts from is what it is given.                               *)
FromGiven == ph = "start" => /\ ctl = Idle /\ stk = <<>> /\ env = Env0 /\ emit = <<>> /\ res = NoRes /\ hist = <<>>
                         /\ pos = Case.pos /\ buf = 1 /\ lim = Len(Case.bufs[1])
(* The families differ: the same bytes do mean something else there.          *)
=============================================================================
