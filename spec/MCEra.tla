-------------------------------- MODULE MCEra --------------------------------
(***************************************************************************)
(* Eras: all two-byte strings.  Every era is there under exactly one string;  *)
(* what a string denotes is what the encoder writes for it; the same alone,   *)
(* as an extension and inside other data.                                     *)
(***************************************************************************)
EXTENDS Compose

Types == <<Prim("U8"), At0(Vari(<<>>), <<"sp_runtime", "generic", "era", "Era">>), Comp(<<Fd(1, <<"era">>, <<>>)>>), Tup(<<0, 1, 0>>)>>
M == MetaWith(Types)
(* Number: 256 first bytes, with a set of second bytes each                   *)
NStarts == 65536 + 256
Starts == {n \in 0..(NStarts - 1) : Drawn(n)}
DataOf(n) == IF n < 65536 THEN <<n % 256, n \div 256>> ELSE <<n - 65536>>
Init == /\ PickInit /\ \E n \in Starts : start = [n |-> n, data |-> DataOf(n)]
Begin ==
  /\ ph = "pick"
  /\ LET d == start.data IN
     /\ Load(ACase(M, "era", <<d>>, 0, 0))
     /\ todo' = <<ACase(M, "all", <<d>>, 0, 1), ACase(M, "at", <<<<9>> \o d \o <<5>>>>, 1, 2), ACase(M, "all", <<<<7>> \o d \o <<3>>>>, 0, 3)>>
  /\ UNCHANGED start
  /\ hist' = <<>> /\ outs' = <<>> /\ idle' = 0
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars
----------------------------------------------------------------------------
AtEnd == ph = "end"
R(i) == outs[i].res
D == start.data
(* An era by its meaning: period 4..65536 a power of two, phase below it, in   *)
(* steps that leave twelve bits.  Its string: the logarithm of the period      *)
(* (at least 1) in the low four bits, the phase in steps in the others.        *)
Logs == 2..16
Steps(k) == IF k > 12 THEN Pow2(k - 12) ELSE 1
EncOf(k, s) == LET code == (k - 1) + 16 * s IN <<code % 256, code \div 256>>
DenotedBy(d) == {<<Pow2(k), s * Steps(k)>> : k \in {j \in Logs : (j - 1) = d[1] % 16}, s \in {(d[1] + 256 * d[2]) \div 16}}
Valid(d) == {e \in DenotedBy(d) : e[2] < e[1]}
Expected == IF D[1] = 0 THEN (IF Len(D) = 1 THEN {<<>>} ELSE {}) ELSE IF Len(D) = 1 THEN {} ELSE Valid(D)
OneMeaning ==
  AtEnd =>
    IF D[1] = 0 THEN R(1).st = "ok" /\ R(1).pos = 1 /\ R(1).x = <<<<>>, <<0>>>>
    ELSE IF Expected = {} THEN R(1).st = "err"
    ELSE R(1).st = "ok" /\ R(1).pos = 2 /\ R(1).x = <<CHOOSE e \in Expected : TRUE, D>>
(* and back: the string is what the encoder writes                            *)
Back ==
  AtEnd /\ R(1).st = "ok" /\ R(1).pos = 2 =>
    LET e == R(1).x[1] IN \E k \in Logs : Pow2(k) = e[1] /\ e[2] % Steps(k) = 0 /\ EncOf(k, e[2] \div Steps(k)) = D
SameInItems ==
  AtEnd =>
    /\ (R(2).st = "ok") = (Expected # {})
    /\ R(2).st = "ok" => Len(outs[2].toks) = 1 /\ outs[2].toks[1].s = "Era" /\ outs[2].toks[1].v \in Expected
    /\ R(2).st = "err" => (IF D[1] = 0 THEN R(2).e.k = "SomeDataNotUsedBlob"
                            ELSE IF Len(D) = 1 THEN R(2).e.k = "DataTooShort"
                            ELSE R(2).e.k = "TypeFailure" /\ R(2).e.s = "Era")
(* inside other data a following byte may complete an era of one byte          *)
Inside ==
  AtEnd /\ Len(D) = 2 /\ D[1] # 0 =>
    /\ (R(3).st = "ok") = (Expected # {}) /\ (R(3).st = "ok" => R(3).pos = 3)
    /\ (R(4).st = "ok") = (Expected # {}) /\ (R(4).st = "ok" => outs[4].toks[3].v \in Expected /\ outs[4].toks[4].v = <<3>>)
=============================================================================
