------------------------------ MODULE Messages ------------------------------
(* What the printed message of an error has to say: key terms (any order)    *)
(* and the numbers it names, in order.  Wording beyond that is free.         *)
EXTENDS Bytes

\* a number 0..2^32-1 kept as a pair, in decimal
PairBytes(p) == <<p[2] % 256, p[2] \div 256, p[1] % 256, (p[1] \div 256) % 256, p[1] \div 65536>>
PairStr(p) == Dec(PairBytes(p))
Num(n) == ToString(n)

Terms(e) ==
  CASE e.k = "DataTooShort" -> {"short"}
    [] e.k = "OutOfRange" -> {"range"}
    [] e.k = "External" -> {"external", "memory"}
    [] e.k = "NoCompact" -> {"compact"}
    [] e.k \in {"SomeDataNotUsedBlob"} -> {"unused"}
    [] e.k = "SomeDataNotUsedCall" -> {"unused", "call"}
    [] e.k = "SomeDataNotUsedExtensions" -> {"unused", "extensions"}
    [] e.k = "TypeFailure" -> {"decode"}
    [] e.k = "UnexpectedEnumVariant" -> {"enum", "variant"}
    [] e.k = "CyclicMetadata" -> {"cycling"}
    [] e.k = "NotBitOrderType" -> {"bitorder"}
    [] e.k = "NotBitStoreType" -> {"bitstore"}
    [] e.k = "TypeNotResolved" -> {"resolve"}
    [] e.k = "UnexpectedCompactInsides" -> {"compact", "inside"}
    [] e.k = "UnexpectedExtrinsicType" -> {"extrinsic", "type"}
    [] e.k = "CutSignable" -> {"separate"}
    [] e.k = "ImmortalHashMismatch" -> {"block", "genesis", "immortal"}
    [] e.k = "NotACall" -> {"call"}
    [] e.k = "WrongGenesisHash" -> {"wrong", "genesis"}
    [] e.k = "WrongSpecVersion" -> {"wrong", "version"}
    [] e.k = "BlockHashTwice" -> {"more", "block"}
    [] e.k = "EraTwice" -> {"more", "era"}
    [] e.k = "GenesisHashTwice" -> {"more", "genesis"}
    [] e.k = "SpecVersionTwice" -> {"more", "version"}
    [] e.k = "NoGenesisHash" -> {"not", "genesis"}
    [] e.k = "NoSpecVersion" -> {"not", "version"}
    [] e.k = "KeyPartHashMismatch" -> {"hash", "match", "key"}
    [] e.k = "KeyPartsUnused" -> {"key", "unused"}
    [] e.k = "KeyShorterThanPrefix" -> {"key", "shorter"}
    [] e.k = "PlainKeyExceedsPrefix" -> {"plain", "prefix"}
    [] e.k = "MultipleHashesNotATuple" -> {"hashers", "not", "tuple"}
    [] e.k = "MultipleHashesNumberMismatch" -> {"hashers", "match", "number"}
    [] e.k = "FormatNoCompact" -> {"compact"}
    [] e.k = "VersionMismatch" -> {"version"}
    [] e.k = "UnexpectedCallTy" -> {"call"}
    [] e.k = "NoAddressParam" -> {"address"}
    [] e.k = "NoCallParam" -> {"call"}
    [] e.k = "NoExtraParam" -> {"extra"}
    [] e.k = "NoSignatureParam" -> {"signature"}
    [] e.k = "NoSystemPallet" -> {"system", "pallet"}
    [] e.k = "NoVersionInConstants" -> {"version", "constant"}
    [] e.k = "RuntimeVersionNotDecodeable" -> {"version", "decoded"}
    [] e.k = "UnexpectedRuntimeVersionFormat" -> {"version", "composite"}
    [] e.k = "NoSpecVersionIdentifier" -> {"no", "version"}
    [] e.k = "NoSpecNameIdentifier" -> {"no", "name"}
    [] e.k = "SpecVersionIdentifierTwice" -> {"version", "twice"}
    [] e.k = "SpecNameIdentifierTwice" -> {"name", "twice"}
    [] OTHER -> {}

WrapTerms(e) == CASE e.w = "ParsingKey" -> {"key"} [] e.w = "ParsingValue" -> {"value"}
                  [] e.w \in {"MetaStructure", "MetaStructure/ExtrinsicTypeNotResolved"} -> {"metadata"}
                  [] OTHER -> {}

Numbers(e) ==
  CASE e.k \in {"DataTooShort"} -> <<PairStr(e.n), Num(e.p)>>
    [] e.k = "OutOfRange" -> <<Num(e.p), PairStr(e.n)>>
    [] e.k \in {"NoCompact", "SomeDataNotUsedBlob", "SomeDataNotUsedExtensions", "TypeFailure",
                "UnexpectedEnumVariant", "CyclicMetadata", "NotBitOrderType", "NotBitStoreType",
                "TypeNotResolved", "UnexpectedCompactInsides", "UnexpectedExtrinsicType",
                "NotACall", "UnexpectedCallTy"} -> <<Num(e.p)>>
    [] e.k = "SomeDataNotUsedCall" -> <<Num(e.p), Num(e.n[1])>>
    [] e.k = "VersionMismatch" -> <<Num(e.n[1]), Num(e.n[2])>>
    [] OTHER -> <<>>

\* a is a subsequence of b
RECURSIVE Within(_, _, _, _)
Within(a, i, b, j) == IF i > Len(a) THEN TRUE
                      ELSE IF j > Len(b) THEN FALSE
                      ELSE IF a[i] = b[j] THEN Within(a, i + 1, b, j + 1)
                      ELSE Within(a, i, b, j + 1)
WordSet(ws) == {ws[i] : i \in 1..Len(ws)}
MessageSays(e, words) == /\ (Terms(e) \cup WrapTerms(e)) \subseteq WordSet(words)
                         /\ Within(Numbers(e), 1, words, 1)
                         /\ (e.k = "TypeFailure" => \E i \in 1..Len(words) : words[i] # "")
=============================================================================
