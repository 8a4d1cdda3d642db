------------------------------ MODULE MCSpecial ------------------------------
(***************************************************************************)
(* Types known by their paths: every known path and near misses of it, over    *)
(* insides that fit and that do not, alone and wrapped, with data around the   *)
(* fixed lengths and limits.                                                    *)
(***************************************************************************)
EXTENDS Compose

Paths == <<<<"sp_core", "crypto", "AccountId32">>, <<"AccountId32">>, <<"account", "AccountId20">>, <<"primitive_types", "H160">>, <<"x", "H256">>, <<"H512">>,
           <<"sp_core", "ed25519", "Public">>, <<"sp_core", "sr25519", "Public">>, <<"sp_core", "ecdsa", "Public">>, <<"sp_core", "ed25519", "Signature">>,
           <<"sp_core", "sr25519", "Signature">>, <<"sp_core", "ecdsa", "Signature">>, <<"sp_core", "ecdsa2", "Public">>, <<"x", "sp_core", "ecdsa", "Public">>,
           <<"ecdsa", "Signature">>, <<"Public">>, <<"sp_core", "sr25519", "Keypair">>, <<"p", "PerU16">>, <<"p", "Percent">>, <<"p", "Permill">>, <<"p", "Perbill">>,
           <<"p", "Perquintill">>, <<"Percents">>, <<"generic", "era", "Era">>, <<"era", "ERA">>, <<"H161">>, <<"AccountId32", "X">>, <<"sp_runtime", "MultiSignature">>,
           <<"sp_runtime", "MultiSigner">>, <<"sp_core", "sr25519">>, <<"sp_core", "ed25519", "x", "Signature">>>>
(* 0 u8, 1 u32, 2 [u8; 32], 3 (), 4 u64, 5 the special, 6.. its wrappings      *)
Insides == <<Comp(<<Fp(2)>>), Comp(<<Fp(1)>>), Comp(<<>>), Tup(<<0, 1>>), Comp(<<Fd(4, <<"nonce">>, <<>>), Fp(0)>>), Prim("U32"), SeqOf(0),
             Vari(<<>>), Vari(<<Vr("A", 0, <<>>), Vr("B", 5, <<Fp(0)>>)>>), Comb(1), Arr(0, 20), Comp(<<Fp(250)>>), Prim("Str"),
             Vari(<<Vr("Ed", 0, <<Fd(10, <<>>, <<"ed25519::Signature">>)>>), Vr("Sr", 1, <<Fd(11, <<>>, <<"sr25519::Signature">>)>>),
                    Vr("Ec", 2, <<Fd(12, <<>>, <<"ecdsa::Signature">>)>>)>>),
             Vari(<<Vr("Ed", 0, <<Fd(12, <<>>, <<"ed25519::Signature">>)>>), Vr("Sr", 1, <<Fd(11, <<>>, <<"sr25519::Signatur">>)>>),
                    Vr("Ec", 2, <<Fd(13, <<"x">>, <<"ecdsa::Signature">>)>>), Vr("Two", 3, <<Fp(0), Fp(0)>>), Vr("No", 4, <<>>), Vr("Sr", 5, <<Fd(14, <<>>, <<"sr25519::Signature">>)>>),
                    Vr("Miss", 6, <<Fd(250, <<>>, <<"ecdsa::Signature">>)>>)>>)>>
RegFor(p, i) ==
  <<Prim("U8"), Prim("U32"), Arr(0, 32), Tup(<<>>), Prim("U64"), At0(Insides[i], Paths[p]),
    Comb(5), Comp(<<Fd(5, <<"spec_version">>, <<>>)>>), Tup(<<0, 5, 0>>), SeqOf(5), At0(Comp(<<Fp(15)>>), <<"sp_core", "ed25519", "Signature">>),
    At0(Comp(<<Fp(15)>>), <<"z", "Signature">>), Arr(0, 65), Comp(<<Fp(12)>>), Comb(15), Arr(0, 64), Arr(5, 2), Comb(7)>>
Roots == <<5, 6, 7, 8, 9, 16, 17, 5, 6>>
(* Data: length n of one byte with the last byte changed; or numbers around     *)
(* the limits, plain and compact; or small enum data.                           *)
Lengths == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 19, 20, 21, 31, 32, 33, 34, 40, 63, 64, 65, 66, 96>>
Bump(b, d) == <<(b[1] + (CASE d = 0 -> 0 [] d = 1 -> 1 [] OTHER -> 255)) % 256>> \o Tail(b)
Limits == <<<<100>>, <<255, 254>>, <<64, 66, 15, 0>>, <<1, 202, 154, 59>>, <<1, 0, 100, 167, 179, 182, 224, 13>>>>
DataNo(n) ==
  IF n < 72 THEN LET w == Lengths[(n \div 3) + 1] IN [i \in 1..w |-> CASE n % 3 = 0 -> 0 [] n % 3 = 1 -> IF i = 1 THEN 4 ELSE 17 [] n % 3 = 2 -> IF i = 1 THEN 8 ELSE 255]
  ELSE IF n < 72 + 15 THEN LET k == n - 72 IN Bump(Limits[(k % 5) + 1], k \div 5)
  ELSE IF n < 72 + 30 THEN LET k == n - 87 IN CompactEnc(Bump(Limits[(k % 5) + 1], k \div 5))
  ELSE IF n < 102 + 21 THEN LET k == n - 102 IN <<k % 7>> \o [i \in 1..(63 + k \div 7) |-> i]
  ELSE IF n < 123 + 24 THEN LET k == n - 123 IN <<(k * 37) % 256, (k * k * 5 + k) % 256>>
  ELSE <<<<0>>, <<5, 0>>, <<245, 0>>, <<31, 255>>, <<255, 255>>, <<225, 255>>, <<1, 0>>, <<0, 0>>>>[n - 146]
NData == 147 + 8
NStarts == Len(Paths) * Len(Insides) * Len(Roots)
PathNo(n) == (n % Len(Paths)) + 1
InsideNo(n) == ((n \div Len(Paths)) % Len(Insides)) + 1
RootNo(n) == (n \div (Len(Paths) * Len(Insides))) + 1
(* More of what is told apart by its insides or by its limit.                   *)
Often(n) ==
  \/ Paths[PathNo(n)] = <<"sp_runtime", "MultiSignature">> /\ InsideNo(n) \in {14, 15} /\ RootNo(n) \in {1, 3, 4}
  \/ PathNo(n) \in 18..22 /\ InsideNo(n) = ((PathNo(n) + Seed) % Len(Insides)) + 1 /\ RootNo(n) \in {1, 2, 6}
  \/ PathNo(n) = 24 /\ InsideNo(n) = (Seed % Len(Insides)) + 1
Starts == {n \in 0..(NStarts - 1) : (Drawn(n) \/ Often(n)) /\ ~(Roots[RootNo(n)] = 9 /\ InsideNo(n) \in {3, 8})}
Init == /\ PickInit
        /\ \E n \in Starts :
             start = [n |-> n, m |-> MetaWith(RegFor(PathNo(n), InsideNo(n))), ty |-> Roots[RootNo(n)]]
Fits(k) ==
  LET h == Hinted(start.m.reg[6]) IN
  CASE h \in PerThings -> k \in 72..101 /\ Len(Limits[((IF k < 87 THEN k - 72 ELSE k - 87) % 5) + 1]) = Len(PerAccuracy(h))
    [] h = "Era" -> k >= 147
    [] h = "MultiSignature" -> k \in 102..122 /\ k % 2 = Seed % 2
    [] OTHER -> FALSE
Begin ==
  /\ ph = "pick"
  /\ \E k \in 0..(NData - 1) :
       /\ (k * 7 + start.n + Seed) % NumEnv("MCTHIN", 5) = 0 \/ Fits(k)
       /\ LET d == CASE start.ty = 8 -> <<9>> \o DataNo(k) \o <<8>>
                     [] start.ty = 9 -> (IF k % 2 = 0 THEN <<8>> \o DataNo(k) \o DataNo(k) ELSE <<4>> \o DataNo(k))
                     [] start.ty = 16 -> DataNo(k) \o DataNo(k)
                     [] OTHER -> DataNo(k)
          IN RunAll(<<ACase(start.m, "all", <<d>>, 0, start.ty), ACase(start.m, "at", <<<<1, 2>> \o d \o <<3>>>>, 2, start.ty), ACase(start.m, "at", <<d>>, 0, start.ty)>>)
MNext == Begin \/ RunStep \/ NextCase \/ Ended
Spec == Init /\ [][MNext]_mvars
----------------------------------------------------------------------------
AtEnd == ph = "end"
B0 == outs[1].case.bufs[1]
R(i) == outs[i].res
SaysWhatItMeans ==
  AtEnd => LET M == Meanings(start.ty, B0) IN
           IF R(1).st = "ok" THEN M = {AbsAll(outs[1].toks, 1)} ELSE M = {}
Elsewhere == AtEnd /\ R(1).st = "ok" => R(2).st = "ok" /\ R(2).pos = 2 + Len(B0) /\ outs[2].toks = outs[1].toks
(* Types of fixed width use exactly that, whatever is inside.                   *)
Width5 == LET h == Hinted(Ty(5)) IN
          IF h \in PerThings THEN Len(PerAccuracy(h)) ELSE IF h \in FixedSpecials \cup Signatures \cup {"H256"} THEN FixedWidth(h) ELSE -1
FixedFormat ==
  AtEnd /\ start.ty \in {5, 7} /\ Width5 # -1 =>
    /\ R(3).st = "ok" => R(3).pos = Width5 /\ LET t == outs[3].toks IN t[Len(t)].s = Hinted(Ty(5)) /\ t[Len(t)].v = First(B0, Width5)
    /\ (R(3).st = "err" /\ Len(B0) >= Width5) => Hinted(Ty(5)) \in PerThings /\ ~Leq(First(B0, Width5), PerAccuracy(Hinted(Ty(5))))
    /\ (R(3).st = "err" /\ Len(B0) < Width5) => R(3).e.k = "DataTooShort"
NearMisses == {"Percents", "ERA", "H161", "X", "MultiSigner", "Keypair", "sr25519"}
OnlyKnown == AtEnd /\ Ident(Ty(5)) \in NearMisses => Hinted(Ty(5)) = "None"
=============================================================================
