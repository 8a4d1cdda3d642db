#!/usr/bin/env python3
"""Shows that the invariants of the model checking families are not vacuous:
each entry breaks the specification in one place, and the families named have
to report it. Nothing here is used by the checks.
  mutate_spec.py [name ...]"""
import os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import tool, extra

P, N, C, B = "Parser.tla", "Entries.tla", "Cards.tla", "Balance.tla"
MUT = [
 ("bleed", P, "ELSE Leaf(T.prim, k.val, UintSpec(ctl.hint), OutInfo, k.len, CompactEnc(k.val))",
              "ELSE Leaf(T.prim, k.val, UintSpec(ctl.hint), OutInfo, k.len + (IF k.len = 4 THEN 1 ELSE 0), CompactEnc(k.val))", ["MCDeep"]),
 ("comp-compact", P, "  /\\ IF Len(T.fields) > 1 /\\ ~NoCmp THEN RaiseCmp", "  /\\ IF Len(T.fields) > 2 /\\ ~NoCmp THEN RaiseCmp", ["MCDeep"]),
 ("tuple-compact", P, "  /\\ IF Len(T.tys) > 1 /\\ ~NoCmp THEN RaiseCmp", "  /\\ IF FALSE THEN RaiseCmp", ["MCDeep"]),
 ("hint-through-structs", P, "IF Len(T.fields) > 1 THEN ForgetHint(ctl.hint) ELSE ctl.hint", "ctl.hint", ["MCDeep"]),
 ("inner-hint-wins", P, "/\\ ctl' = DecCtl(f.ty, OrHint(Top.hint, HintOfField(f)), Top.cmp,",
                        "/\\ ctl' = DecCtl(f.ty, OrHint(HintOfField(f), Top.hint), Top.cmp,", ["MCDeep", "MCTx"]),
 ("last-variant", P, "THEN i ELSE PickFrom(vs, ix, i + 1)", "/\\ PickFrom(vs, ix, i + 1) = 0 THEN i ELSE PickFrom(vs, ix, i + 1)", ["MCCall"]),
 ("vecu8-empty2", P, " \\/ (s.ty = \"raw\" /\\ s.v = 0))", " \\/ FALSE)", ["MCDeep"]),
 ("wrap-labelled", P, "THEN CASE s.k = \"leaf\" /\\ s.ty \\in {\"U8\", \"U16\", \"U32\", \"U64\", \"U128\"} /\\ s.sp = \"None\" -> s.ty",
                      "THEN CASE s.k = \"leaf\" /\\ s.ty \\in {\"U8\", \"U16\", \"U32\", \"U64\", \"U128\"} -> s.ty", ["MCDeep"]),
 ("element-info", P, "Top.cmp, Top.cyc, TRUE)", "Top.cmp, Top.cyc, FALSE)", ["MCItem", "MCDeep"]),
 ("info-lost", P, "                                !.info = Info2]", "                                !.info = <<>>]", ["MCItem", "MCDeep"]),
 ("fraction", P, "ELSE IF ~Leq(Slice(pos, w), PerAccuracy(kind)) THEN Raise(ETypeFail(pos, kind))",
                 "ELSE IF Leq(PerAccuracy(kind), Slice(pos, w)) THEN Raise(ETypeFail(pos, kind))", ["MCSpecial"]),
 ("saturate", P, "Saturate(ty, v) == IF Leq(v, PerAccuracy(ty)) THEN v ELSE PerAccuracy(ty)", "Saturate(ty, v) == v", ["MCSpecial"]),
 ("era-bytes", P, "ELSE IF ~CanRead(pos, 2) THEN Raise(ReadErr(pos, 2))", "ELSE IF ~CanRead(pos, 3) THEN Raise(ReadErr(pos, 2))", ["MCDeep", "MCSpecial"]),
 ("sig-skip", P, "ReadFixed(kind, IF Hinted(T) = \"MultiSignature\" THEN 1 ELSE 0)", "ReadFixed(kind, 0)", ["MCSpecial"]),
 ("bits-room", P, "room == ((bytes + sb - 1) \\div sb) * sb", "room == bytes", ["MCBits"]),
 ("pallet-name", P, "pallet == T.variants[d[2]].name", "pallet == T.variants[1].name", ["MCCall"]),
 ("pallet-fields", P, "ELSE IF Len(t.variants[v].fields) # 1 THEN NotSpecial", "ELSE IF Len(t.variants[v].fields) = 0 THEN NotSpecial", ["MCCall"]),
 ("pallet-kinds", P, "ELSE IF Hinted(Ty(f.ty)) = h /\\ Ty(f.ty).def = \"Variant\"", "ELSE IF Hinted(Ty(f.ty)) \\in {\"Call\", \"Event\"} /\\ Ty(f.ty).def = \"Variant\"", ["MCCall"]),
 ("pallet-inside", P, "ELSE IF Hinted(Ty(f.ty)) = h /\\ Ty(f.ty).def = \"Variant\"", "ELSE IF Hinted(Ty(f.ty)) = h", ["MCCall"]),
 ("tail-accepted", N, "  /\\ IF Case.entry = \"all\" /\\ pos # lim THEN", "  /\\ IF Case.entry = \"all\" /\\ pos + 1 < lim THEN", ["MCItem", "MCSpecial"]),
 ("call-bleeds", N, "[] Case.entry = \"dcall\" -> Goto(\"call\") /\\ View(1, k.len, es) /\\ KeepRes", "[] Case.entry = \"dcall\" -> Goto(\"call\") /\\ View(1, k.len, Total) /\\ KeepRes", ["MCTx"]),
 ("call-short", N, "                 IF pos # env.es\n", "                 IF pos > env.es\n", ["MCTx", "MCCall"]),
 ("call-start", N, "View(1, env.cs, env.es)", "View(1, IF env.cs = 2 THEN 1 ELSE env.cs, env.es)", ["MCTx"]),
 ("ext-order", N, "Parse(\"extitem\", IF env.k < NExt THEN e.ty ELSE e.add, HintOfExt(e.id))", "Parse(\"extitem\", IF env.k < NExt THEN e.add ELSE e.ty, HintOfExt(e.id))", ["MCTx"]),
 ("ext-hint", N, "Parse(\"extitem\", IF env.k < NExt THEN e.ty ELSE e.add, HintOfExt(e.id))", "Parse(\"extitem\", IF env.k < NExt THEN e.ty ELSE e.add, IF env.k < NExt THEN HintOfExt(e.id) ELSE \"None\")", ["MCTx"]),
 ("ext-tail", N, "  /\\ IF pos # lim THEN Fail(Err(\"SomeDataNotUsedExtensions\", pos, <<>>, \"\"))", "  /\\ IF pos > lim THEN Fail(Err(\"SomeDataNotUsedExtensions\", pos, <<>>, \"\"))", ["MCTx"]),
 ("ver-twice", N, "IsSpecVersion(s) -> \"SpecVersion\" [] OTHER -> \"\"", "IsSpecVersion(s) /\\ s.ty # \"U16\" -> \"SpecVersion\" [] OTHER -> \"\"", ["MCTx"]),
 ("immortal", N, "ELSE IF Len(era) = 1 /\\ era[1].v = <<>> /\\ Len(blk) = 1 /\\ gen[1].v # blk[1].v", "ELSE IF Len(era) = 1 /\\ Len(blk) = 1 /\\ gen[1].v # blk[1].v", ["MCTx"]),
 ("genesis-first", N, "     ELSE IF Len(gen) = 0 THEN E0(\"NoGenesisHash\")\n", "     ELSE IF Len(gen) = 0 THEN (IF Len(blk) = 0 THEN NoErr ELSE E0(\"NoGenesisHash\"))\n", ["MCTx"]),
 ("key-prefix", N, "IF Total < KeyPrefix THEN", "IF Total < KeyPrefix - 1 THEN", ["MCStore"]),
 ("plain-key", N, "IF Total # KeyPrefix THEN Fail(E0(\"PlainKeyExceedsPrefix\"))", "IF Total > KeyPrefix + 1 THEN Fail(E0(\"PlainKeyExceedsPrefix\"))", ["MCStore"]),
 ("hash-range", N, "HashOf(h, SubSeq(Data, env.save + 1, pos)) # env.hash", "HashOf(h, SubSeq(Data, env.save + 1, lim)) # env.hash", ["MCStore"]),
 ("key-rest", N, "  /\\ IF pos # lim THEN Fail(E0(\"KeyPartsUnused\"))", "  /\\ IF pos + 1 < lim THEN Fail(E0(\"KeyPartsUnused\"))", ["MCStore"]),
 ("value-rest", N, "IF pos # lim THEN Fail(Wrap(\"ParsingValue\", ELeftBlob(pos)))", "IF pos + 1 < lim THEN Fail(Wrap(\"ParsingValue\", ELeftBlob(pos)))", ["MCStore"]),
 ("hasher-count", N, "ELSE IF Len(Ty(St.key).tys) # Len(St.h) THEN", "ELSE IF Len(Ty(St.key).tys) < Len(St.h) THEN", ["MCStore"]),
 ("uxt-length", N, "             ELSE IF end # tot THEN UxBad", "             ELSE IF PairInt(end) + 1 < PairInt(tot) THEN UxBad", ["MCUx"]),
 ("uxt-version", N, "IF b % 128 # Meta.xver", "IF b % 64 # (Meta.xver % 64)", ["MCUx"]),
 ("uxt-signed", N, "!.k = IF b >= 128 THEN 1 ELSE 4", "!.k = IF b >= 128 THEN 1 ELSE 3", ["MCUx"]),
 ("uxt-order", N, "CASE env.k = 1 -> XParams.a [] env.k = 2 -> XParams.s", "CASE env.k = 1 -> XParams.s [] env.k = 2 -> XParams.a", ["MCUx"]),
 ("uxt-call", N, "  /\\ IF Sum.k # \"call\" THEN Fail(Err(\"UnexpectedCallTy\"", "  /\\ IF Sum.k \\notin {\"call\", \"var\"} THEN Fail(Err(\"UnexpectedCallTy\"", ["MCUx"]),
 ("first-param", N, "LastParam(ps, name, i - 1)\nByte", "LastParam(ps, name, i - 2)\nByte", ["MCMeta"]),
 ("v15-swap", N, "a |-> Meta.xp.a, c |-> Meta.xp.c,\n                       s |-> Meta.xp.s, x |-> Meta.xp.e", "a |-> Meta.xp.a, c |-> Meta.xp.c,\n                       s |-> Meta.xp.e, x |-> Meta.xp.s", ["MCUx", "MCMeta"]),
 ("first-version", N, "ELSE IF cs[i].name = \"Version\" THEN i ELSE LastVersion(cs, i - 1)", "ELSE IF cs[i].name = \"Version\" \\/ i = 1 THEN i ELSE LastVersion(cs, i - 1)", ["MCMeta"]),
 ("facts-twice", N, "       THEN IF Len(n) > 0 THEN [ok", "       THEN IF Len(n) > 1 THEN [ok", ["MCMeta"]),
 ("version-rest", N, "  /\\ IF pos # lim THEN Fail(VersionErr(\"RuntimeVersionNotDecodeable\"))", "  /\\ IF pos > lim THEN Fail(VersionErr(\"RuntimeVersionNotDecodeable\"))", ["MCMeta"]),
 ("silent-fault", N, "  /\\ CanFail /\\ ctl.op \\in {\"dec\", \"next\"}\n  /\\ Raise(EExternal)", "  /\\ CanFail /\\ ctl.op \\in {\"dec\", \"next\"}\n  /\\ Raise(ENotResolved(0))", ["MCFault"]),
 ("card-indent", C, "Sl.ind + 2, Sl.bal, <<>>, Sl.ind + 2)", "Sl.ind + 2, Sl.bal, <<>>, Sl.ind + 1)", ["MCCards"]),
 ("card-balance", C, "Sl.ind + 2, tk.t[1] \\in BalancePallets, <<>>, Sl.ind + 2)", "Sl.ind + 2, Sl.bal \\/ tk.t[1] \\in BalancePallets, <<>>, Sl.ind + 2)", ["MCCards"]),
 ("card-settle", C, "  IN IF t2.left = 0 /\\ t.f # \"elems\" THEN Settle", "  IN IF t2.left = 0 THEN Settle", ["MCCards"]),
 ("card-lone", C, "ELSE IF n = 1 /\\ tks[card.i + 1].t = <<>>\n       THEN Opened(cards, CFrame(\"one\", 1, ind, bal, pre))", "ELSE IF n = 1\n       THEN Opened(cards, CFrame(\"one\", 1, ind, bal, pre))", ["MCCards"]),
 ("card-docs", C, "!.slot = Slot(t.ind, t.bal, t.pre \\o DocsInfo(tk.d))]", "!.slot = Slot(t.ind, t.bal, t.pre)]", ["MCCards"]),
 ("card-number", C, "IF t.f = \"one\"\n     THEN", "IF t.f = \"one\" \\/ t.no = 3\n     THEN", ["MCCards"]),
 ("bal-round", B, "FloorDiv3(h) == IF h >= 0 THEN h \\div 3 ELSE -((2 - h) \\div 3)", "FloorDiv3(h) == IF h >= 0 THEN h \\div 3 ELSE -((3 - h) \\div 3)", ["MCBal"]),
 ("bal-digit", B, "after |-> SubSeq(all, n + 1, Len(all)), mag", "after |-> SubSeq(all, n + 1, IF Len(all) > 38 THEN 38 ELSE Len(all)), mag", ["MCBal"]),
 ("bal-clamp", B, "mag == Clamp(-FloorDiv3(top), -4, 6)", "mag == Clamp(-FloorDiv3(top), -3, 6)", ["MCBal"]),
 ("bal-zeros", B, "after |-> ZeroDigits(-n) \\o digits, mag", "after |-> ZeroDigits(-n - 1) \\o digits, mag", ["MCBal"]),
 ("era-quant", "Entries.tla", "       IN <<code % 256, code \\div 256>>", "       IN <<code % 256, (code \\div 256) % 128>>", ["MCEra"]),
]

def main(names):
    missed = []
    for name, f, old, new, mods in MUT:
        if not mods or (names and name not in names):
            continue
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree(os.path.join(tool.VERIF, "spec"), os.path.join(d, "spec"))
            p = os.path.join(d, "spec", f)
            s = open(p).read()
            if s.count(old) < 1:
                print(name, "DOES NOT APPLY"); missed.append(name); continue
            open(p, "w").write(s.replace(old, new))
            keep, tool.SPEC = tool.SPEC, os.path.join(d, "spec")
            for m in mods:
                quick = next(q for fs in extra.FAMILIES.values() for mm, q, _ in fs if mm == m)
                t = time.time()
                rc, out = tool.tlc(m, env={k: str(v) for k, v in dict(quick, MCPRINT=0, MCSEED=3).items()}, timeout=600)
                bad = re.findall(r"Invariant (\w+) is violated", out)
                err = re.findall(r"Error: .*", out)
                ok = bool(bad) or any("valuating" in e or "evaluat" in e or "unexpected exception" in e for e in err)
                print("%-22s %-10s %-9s %s %.0fs" % (name, m, "caught" if ok else "MISSED", bad or err[:2], time.time() - t), flush=True)
                if not ok:
                    missed.append(name + "/" + m)
            tool.SPEC = keep
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print("missed:", missed)
if __name__ == "__main__":
    main(sys.argv[1:])
