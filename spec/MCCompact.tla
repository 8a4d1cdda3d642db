------------------------------ MODULE MCCompact ------------------------------
(***************************************************************************)
(* Compact integers of every width: a string starts with one exactly if the   *)
(* encoder (which never decodes) writes it for a number of that width; every  *)
(* number around a power of two in every form it could be given.              *)
(***************************************************************************)
EXTENDS Compose

Types == <<Prim("U8"), Prim("U16"), Prim("U32"), Prim("U64"), Prim("U128"),
           Comb(0), Comb(1), Comb(2), Comb(3), Comb(4), Comp(<<Fd(2, <<"nonce">>, <<>>)>>), Comb(10)>>
M == MetaWith(Types)
Sig(v) == Len(Trim(v))
PowerOf2(k) == [i \in 1..16 |-> IF i = (k \div 8) + 1 THEN Pow2(k % 8) ELSE 0]
BelowPower(k) == [i \in 1..16 |-> IF i < (k \div 8) + 1 THEN 255 ELSE IF i = (k \div 8) + 1 THEN Pow2(k % 8) - 1 ELSE 0]
AbovePower(k) == [PowerOf2(k) EXCEPT ![1] = @ + 1]
Mixed(k) == [i \in 1..16 |-> IF i < (k \div 8) + 1 THEN (37 * i + 11 * k + Seed) % 256 ELSE IF i = (k \div 8) + 1 THEN Pow2(k % 8) ELSE 0]
NumberAt(k, j) == CASE j = 0 -> BelowPower(k) [] j = 1 -> PowerOf2(k) [] j = 2 -> AbovePower(k) [] j = 3 -> Mixed(k)
(* A number in a given form, where the form can hold it: 0 canonical, 1 two   *)
(* bytes, 2 four bytes, n >= 4: n bytes after the first.                      *)
Shifted2(v, add) ==         \* 4 v + add in four bytes
  <<((v[1] % 64) * 4) + add, (v[1] \div 64) + ((v[2] % 64) * 4), (v[2] \div 64) + ((v[3] % 64) * 4), (v[3] \div 64) + ((v[4] % 64) * 4)>>
InForm(v, f) ==
  IF f = 0 THEN CompactEnc(v)
  ELSE IF f = 1 THEN SubSeq(Shifted2(v, 1), 1, 2)
  ELSE IF f = 2 THEN Shifted2(v, 2)
  ELSE <<(f - 4) * 4 + 3>> \o SubSeq(v \o Zeros(60), 1, f)
Forms == <<0, 1, 2, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 67>>
Ends == <<<<>>, <<0>>, <<255, 1>>>>
NNumbers == 128 * 4 * Len(Forms)
Heads == <<0, 1, 2, 3, 4, 7, 11, 19, 51, 252, 253, 254, 255, 5, 6>>
Tails == <<0, 1, 64, 63, 255>>
(* strings of one to five bytes by number                                      *)
NStrings == Len(Heads) * 6 * 6 * 6 * 6
RECURSIVE StringNo(_, _)
StringNo(n, k) == IF k = 0 \/ n % 6 = 5 THEN <<>> ELSE <<Tails[(n % 6) + 1]>> \o StringNo(n \div 6, k - 1)
NStarts == NNumbers + NStrings
DataNo(n) ==
  IF n < NNumbers
  THEN InForm(NumberAt(n % 128, (n \div 128) % 4), Forms[((n \div 512) % Len(Forms)) + 1]) \o Ends[(n % 3) + 1]
  ELSE LET k == n - NNumbers IN <<Heads[(k % Len(Heads)) + 1]>> \o StringNo(k \div Len(Heads), 4)
Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, data |-> DataNo(n)]
Wide == <<1, 2, 4, 8, 16>>
Begin ==
  /\ ph = "pick"
  /\ LET d == start.data
         K(e, t, p) == ACase(M, e, <<IF p = 0 THEN d ELSE <<0, 253>> \o d>>, p, t)
     IN Load(K("cmp", 1, 0))
        /\ todo' = <<K("cmp", 2, 0), K("cmp", 4, 0), K("cmp", 8, 0), K("cmp", 16, 0),
                     K("cmp", 1, 2), K("cmp", 2, 2), K("cmp", 4, 2), K("cmp", 8, 2), K("cmp", 16, 2),
                     K("at", 5, 0), K("at", 6, 0), K("at", 7, 0), K("at", 8, 0), K("at", 9, 0), K("at", 11, 0)>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars

----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
D == start.data
Encodes(b, w) == b # <<>> /\ Sig(Candidate(b)) <= w /\ CompactEnc(Candidate(b)) = b
Leads(d, w) == {k \in 1..Len(d) : k <= 17 /\ Encodes(First(d, k), w)}
Exactly ==
  AtEnd => \A i \in 1..5 :
    LET w == Wide[i]  L == Leads(D, w)  r == R(i) IN
    /\ Cardinality(L) <= 1
    /\ (r.st = "ok") = (L # {})
    /\ r.st = "ok" => /\ r.pos \in L /\ r.x = <<PadTo(Trim(Candidate(First(D, r.pos))), w)>>
                      /\ CompactEnc(r.x[1]) = First(D, r.pos)
    /\ r.st = "err" => r.e.k = "NoCompact" /\ r.e.p = 0
Placed == AtEnd => \A i \in 1..5 :
    R(i + 5).st = R(i).st /\ (R(i).st = "ok" => R(i + 5).pos = R(i).pos + 2 /\ R(i + 5).x = R(i).x)
    /\ (R(i).st = "err" => R(i + 5).e.p = 2)
InItems ==
  AtEnd => \A i \in 1..6 :
    LET j == IF i = 6 THEN 3 ELSE i IN
    /\ R(10 + i).st = R(j).st
    /\ R(10 + i).st = "ok" => /\ R(10 + i).pos = R(j).pos
                              /\ LET t == outs[10 + i].toks IN t[Len(t)].v = R(j).x[1]
(* A wider type reads the same number, and refuses no more.                   *)
Wider == AtEnd => \A i \in 1..4 : R(i).st = "ok" => R(i + 1).st = "ok" /\ Trim(R(i + 1).x[1]) = Trim(R(i).x[1])
=============================================================================
