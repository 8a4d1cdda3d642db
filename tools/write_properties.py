#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
S="src/"
prop("C01","Decoding returns exactly the value the type registry assigns to the bytes",
 "For every type registry and every byte string, decoding data as a registry type succeeds exactly when the bytes starting at the given position form a SCALE encoding of that type, and then the returned tree has exactly the structure, struct/variant/field names and type names, element counts and numeric/text/byte values that the encoding determines. Re-encoding the returned values in order yields exactly the bytes consumed.",
 ["inputs","configurations"],"all registries (any nesting of composite, variant, tuple, array, sequence, primitive, compact types, any names and indices) x all byte strings x all start positions",
 "Unit tests decode a few dozen fixed blobs against nine fixed chain metadata files; they never vary the registry and never touch most primitive types, shapes or boundary values.",
 [S+"decoding_sci.rs",S+"special_types.rs",S+"propagated.rs"],
 [("type-directed recursive decoder",S+"decoding_sci.rs decode_with_type/decode_fields/decode_variant/decode_elements_set"),("fixed-width readers",S+"special_types.rs StableLength")],
 ["decode_all_as_type","decode_as_type_at_position","ParsedData tree"])
prop("C02","Complete consumption and exact end position, independent of surrounding bytes",
 "Decoding a whole blob succeeds only if every byte was used (leftover bytes are reported with the position of the first unused byte), and decoding at a position leaves the position exactly one past the last byte of the value. The decoded value, and the distance the position moves, do not depend on the bytes before the start or after the end of the value, and no strict prefix of an accepted blob of non-zero length is accepted as the same blob type's complete encoding.",
 ["inputs","configurations"],"all registries x all encodings x all prefixes/suffixes and start offsets",
 "Tests decode blobs at their natural start with nothing after them; offsets, suffixes and every truncation point are not enumerated.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"compacts.rs"],
 [("position threading and final position==total_len test",S+"lib.rs decode_all_as_type"),("limit-checked slices",S+"special_types.rs cut_and_decode")],
 ["decode_all_as_type","decode_as_type_at_position (position after)"])
prop("C03","Malformed data is refused with an error naming the right cause and place",
 "Whenever data does not fit the type, decoding returns an error and no value: data too short or out of range, missing compact, unknown variant index, invalid bool/char/UTF-8/era/out-of-range fraction, and leftover data are each reported as that kind of failure, with the byte position (and, where reported, needed length, type name or type id) at which decoding actually stopped. The printed message of the error states the same kind and numbers.",
 ["inputs","configurations"],"all registries x all malformed, truncated and mutated byte strings",
 "About a dozen error cases are asserted for six hand-made inputs; the mapping from every kind of damage at every place to the report is not.",
 [S+"error.rs",S+"decoding_sci.rs",S+"special_types.rs",S+"compacts.rs"],
 [("ParserError construction sites",S+"decoding_sci.rs, special_types.rs, compacts.rs"),("Display",S+"error.rs")],
 ["ParserError value and Display"])
prop("C04","Compact integers: canonical encodings only, right width, only where allowed",
 "A compact is accepted exactly when it is the canonical SCALE compact encoding of a number that fits the target width (u8 to u128, and fraction types, whose value saturates at 100%), and the position moves just past it. A compact type is accepted only around an unsigned integer or fraction, directly or through single-field structs and single-element tuples (an empty struct or tuple, which has no bytes, is let through); any other content is refused as an unexpected compact, naming the compact type, and is never read as a non-compact value.",
 ["inputs","configurations"],"all byte strings at every mode boundary for every width, and all registries wrapping any type inside a compact",
 "Tests cover compacts only as they appear in captured transactions: no non-canonical or overflowing encodings, no wrongly nested compacts.",
 [S+"compacts.rs",S+"decoding_sci.rs",S+"special_types.rs",S+"propagated.rs"],
 [("find_compact prefix search",S+"compacts.rs"),("compact_at tracking and rejection",S+"propagated.rs SpecialtySet::reject_compact")],
 ["find_compact","get_compact","decode_all_as_type"])
prop("C05","Call and extensions of a length-marked transaction never bleed into each other",
 "Parsing a signable transaction splits it at the compact length prefix: the call is decoded only from the bytes inside the announced length and must use all of them, the extensions only from the bytes after it and must use all of those. A prefix that cannot be honoured is refused before anything is decoded; leftover call bytes make only the call fail (with the unused range reported) while the extensions are still returned, and leftover or missing extension bytes make the whole parse fail.",
 ["inputs","configurations"],"all metadata x all transactions with true, too small, too large, non-canonical or cut length prefixes",
 "Six malformed transactions are tested; the length prefix is never shifted systematically against call/extension boundaries.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"decoding_sci_ext.rs"],
 [("MarkedData::mark and data_no_extensions",S+"lib.rs"),("SomeDataNotUsedCall/SomeDataNotUsedExtensions",S+"decoding_sci.rs decode_as_call, "+S+"decoding_sci_ext.rs")],
 ["parse_transaction","MarkedData","decode_as_call","decode_extensions"])
prop("C06","Extensions are accepted only for the right chain, version and era",
 "Extensions are returned only if they contain exactly one spec version and it equals the metadata's, exactly one genesis hash and it equals the expected one when one is given, at most one era and at most one block hash, and, if the era is immortal and a block hash is present, the block hash equals the genesis hash. Otherwise parsing fails with the error that names the violated condition and, where it reports values, the values found and expected.",
 ["inputs","configurations"],"all extension lists (any subset, duplicates, wrappers, integer widths) x all values x with/without expected genesis hash",
 "Tests contain a few mismatches against fixed chains; duplicates, missing entries, widths, wrappers and their combinations are not sampled.",
 [S+"decoding_sci_ext.rs"],
 [("check_extensions / CollectedExt",S+"decoding_sci_ext.rs")],
 ["parse_transaction","parse_transaction_unmarked","decode_extensions","decode_extensions_unmarked"])
prop("C07","Extensions are decoded in metadata order and labelled by their identifiers",
 "The extensions part is decoded as all extension types in metadata order followed by all additional-signed types in metadata order, one result per type. Within each, the extension's identifier alone decides the meaning attached to numbers and hashes: CheckSpecVersion, CheckTxVersion, CheckNonce, ChargeTransactionPayment, ChargeAssetTxPayment mark integers as spec version, transaction version, nonce, tip, asset tip; CheckGenesis and CheckMortality mark hashes as genesis hash and block hash.",
 ["inputs","configurations"],"all orders, subsets and repetitions of signed extensions with arbitrary types, in the metadata",
 "Tests see only the extension lists of nine captured chains, in their usual order.",
 [S+"decoding_sci_ext.rs",S+"special_indicators.rs",S+"propagated.rs"],
 [("two passes over signed_extensions",S+"decoding_sci_ext.rs decode_extensions_unmarked"),("Hint::from_ext_meta",S+"special_indicators.rs")],
 ["TransactionParsed.extensions"])
prop("C08","Marked and unmarked parsing of the same call and extensions agree",
 "For every metadata, call bytes and extension bytes: parsing them with a length prefix and parsing their plain concatenation give the same call and the same extensions whenever both succeed, and the unmarked parse of a valid pair succeeds whenever the marked one does. The unmarked parse takes the call's end from the call type alone, requires the extensions to use all that remains, and applies the same extension checks.",
 ["inputs","configurations"],"all metadata x all call/extension byte pairs",
 "The test suite calls the unmarked entry points on a couple of fixed transactions only.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"decoding_sci_ext.rs"],
 [("shared decode_*_unmarked",S+"decoding_sci.rs, "+S+"decoding_sci_ext.rs")],
 ["parse_transaction","parse_transaction_unmarked"])
prop("C09","Meaning labels are attached by rule and never change what is decoded",
 "An unsigned integer, text or hash carries a label (balance, tip, asset tip, nonce, spec version, transaction version, spec name, genesis hash, block hash) exactly when the documented field names, field type names, extension identifiers or extension type paths on the way to it say so, the outermost applicable indication winning and surviving only through single-field structs, single-element tuples, compacts and sequence-element unwrapping, the asset-payment indication also through multi-field structs and tuples. Labels never change the value, the bytes consumed or whether decoding succeeds.",
 ["inputs","configurations"],"all registries with indicator names, type names and paths at any depth",
 "Tests see only the indicator placements of captured chains, mostly one level deep.",
 [S+"propagated.rs",S+"special_indicators.rs",S+"decoding_sci.rs"],
 [("Hint propagation and forgetting",S+"propagated.rs"),("Hint::from_field/from_path",S+"special_indicators.rs")],
 ["specialty of ParsedData leaves"])
prop("C10","Calls and events are recognised with the right pallet, name, docs and fields",
 "Data is returned as a call (event) exactly when its type is an enum with a call (event) path whose selected variant has a single field that is again an enum with a path of the same kind; the result names the pallet variant, the inner variant, its docs and fields, at any nesting depth. A call type that does not follow this pattern is refused as not a call where a call is required, and decoded as an ordinary enum elsewhere.",
 ["inputs","configurations"],"all call/event shaped and nearly call-shaped registries x all variant indices x nesting",
 "Captured chains have only well-formed call enums; near misses (wrong kind, extra fields, non-enum inner) never occur.",
 [S+"special_indicators.rs",S+"decoding_sci.rs"],
 [("SpecialtyTypeChecked::from_type PalletSpecific",S+"special_indicators.rs"),("NotACall",S+"decoding_sci.rs decode_as_call_unmarked")],
 ["decode_as_call_unmarked","decode_all_as_type"])
prop("C11","Types with known paths decode in their fixed format",
 "Account ids, H160/AccountId20, H256, H512, sp_core public keys and signatures, fractions (PerU16, Percent, Permill, Perbill, Perquintill) and eras, recognised by path, are decoded in their fixed length and format whatever the registry says inside them, fractions above 100% being refused outside compacts. A MultiSignature enum yields the named signature exactly when the selected variant is a single field of the matching type name and array length; key and signature paths count only in their exact sp_core namespaces.",
 ["inputs","configurations"],"all registries with special idents, namespaces and near misses x all byte strings",
 "Only a few of these types appear in tests, always with their genuine registry definitions and valid values.",
 [S+"special_indicators.rs",S+"special_types.rs",S+"decoding_sci.rs"],
 [("SpecialtyTypeHinted/SpecialtyTypeChecked",S+"special_indicators.rs"),("StableLength/CheckCompact impls",S+"special_types.rs")],
 ["decode_all_as_type"])
prop("C12","Sequences and arrays keep every element in order, compressed forms lossless",
 "A sequence or array result holds exactly the announced number of elements, in order, each equal to decoding it alone as the element type with its transparent wrappers (single-field structs, compacts) removed. The compact representations (vectors of u8..u128 and of byte vectors) are used exactly when every element is an unlabelled unsigned integer of that width, respectively the first is a byte vector and all others are byte vectors of the same description or empty, and contain the same elements; otherwise elements are listed individually.",
 ["inputs","configurations"],"all element types (wrapped, labelled, nested, zero-sized) x all lengths including compact-mode boundaries x all contents",
 "Tests cover a few byte vectors and account lists; nested vectors with mixed empties, wrapped, labelled and long sequences are not sampled.",
 [S+"decoding_sci.rs",S+"special_types.rs"],
 [("husk_type and decode_elements_set",S+"decoding_sci.rs"),("wrap_sequence",S+"special_types.rs")],
 ["ParsedData::Sequence / SequenceRaw"])
prop("C13","Bit sequences decode to exactly the encoded bits for every store and order",
 "For each store type u8, u16, u32, u64 and each bit order, a bit sequence decodes to exactly the announced number of bits with the values the encoding defines and consumes its length prefix plus the whole store elements it needs; a bad order or store type or too little data is refused. On targets that have no 64-bit bit store the u64-store decoding yields the same bits and end position as on 64-bit targets.",
 ["inputs","configurations"],"all bit lengths x all contents x all store/order pairs x both pointer-width variants",
 "Four vectors test the 32-bit path and two the 64-bit path; zero halves, ragged lengths and most store/order pairs are untested.",
 [S+"decoding_sci.rs"],
 [("decode_type_def_bit_sequence, BitVecPositions",S+"decoding_sci.rs"),("patch_bitvec_u64, reform_vec_*",S+"decoding_sci.rs")],
 ["decode_all_as_type","patched 32-bit decoder through the cfg hook"],
 hook="cfg(substrate_parser_verif): compiles the 32-bit u64 bit-sequence decoder on 64-bit hosts and exports it")
prop("C14","Any registry and data end in a result: no panic, no endless loop",
 "Every entry point returns a value or an error for every metadata and data, including registries with unresolved ids, type cycles (also through compacts, tuples, arrays, zero-size elements) and malformed special types: cycles that consume no data are reported as cyclic metadata with the repeated id, unresolved ids as such. Legitimate recursion that consumes data decodes normally.",
 ["inputs","configurations"],"all registries, well-formed or not x all byte strings",
 "Tests contain no cyclic or dangling registry at all.",
 [S+"propagated.rs",S+"decoding_sci.rs",S+"traits.rs"],
 [("Checker::check_id / drop_cycle_check",S+"propagated.rs"),("husk_type cycle check",S+"decoding_sci.rs")],
 ["all decode entry points"])
prop("C15","Storage entries decode only if key parts and hashes match the metadata",
 "A storage entry is decoded only if the key has at least the 32-byte prefix (exactly that for plain entries), contains exactly one part per hasher in order, and every transparent-hash part is the hash of precisely the bytes its key value decodes from; opaque hashes are returned as found with their key type, key values and the storage value decode as for the plain types, and the value must be used completely. Any leftover, mismatch, or hasher/tuple count disagreement is refused with the corresponding error.",
 ["inputs","configurations"],"all hasher lists x key types x keys (valid, with each part corrupted, truncated, extended) x values",
 "Three stored entries are tested; most hashers, multi-key maps, hash mismatches and malformed keys never appear.",
 [S+"storage_data.rs"],
 [("process_key_mapped, cut_hash!, check_hash!",S+"storage_data.rs")],
 ["decode_as_storage_entry"])
prop("C16","Unchecked extrinsics are framed, versioned and split exactly",
 "An unchecked extrinsic is accepted only if its compact length equals the remaining length, the low seven bits of its version byte equal the metadata version, and address, signature, extensions and call (signed, top bit set) or just the call (unsigned) decode in that order and use every byte. The parts are exactly what decoding each part's type at its place yields; each violation gives the corresponding error.",
 ["inputs","configurations"],"all metadata (V14/V15) x all extrinsics, valid, truncated, extended, re-versioned",
 "Two valid extrinsics are tested; no malformed one is.",
 [S+"unchecked_extrinsic.rs",S+"traits.rs"],
 [("length, version and split logic",S+"unchecked_extrinsic.rs")],
 ["decode_as_unchecked_extrinsic"])
prop("C17","Facts read from metadata are the right ones, in every supported metadata version",
 "The spec name and version are those of the System pallet's Version constant, and call, address, signature and extra types and the extrinsic version are those the metadata declares (V14: the parameters of an extrinsic type that is an opaque byte vector; V15: the explicit fields); anything missing, duplicated, undecodable or malformed yields the specific error. Equivalent V14 and V15 metadata give identical decoding results.",
 ["inputs","configurations"],"all metadata of both versions, including malformed ones",
 "Tests use nine fixed well-formed metadata files; V14 and V15 of the same chain are not compared, malformed metadata is not exercised.",
 [S+"traits.rs"],
 [("AsMetadata/AsCompleteMetadata impls",S+"traits.rs"),("spec_name_version_from_runtime_version_data",S+"traits.rs")],
 ["AsMetadata::spec_name_version, call_ty, signed_extensions; AsCompleteMetadata::extrinsic_type_params, extrinsic_version"])
prop("C18","External memory: same results as in-memory, and access failures surface",
 "Parsing through an external-memory buffer and registry gives the same result as parsing the same data and metadata from memory, and if any read of the data or of a type fails, the outcome is an error reporting the failure (or the framing error when a length prefix could not be read), never a panic and never a value different from the failure-free one. Memory is not consulted for anything but the given data and registry.",
 ["inputs","configurations","fault_sequences"],"all inputs x every access at which a one-shot or persistent failure can occur",
 "Tests use a mock external memory on the happy path only and never inject a failure.",
 [S+"decoding_sci.rs",S+"storage_data.rs",S+"special_indicators.rs",S+"compacts.rs"],
 [("error propagation of read_slice/read_byte/resolve_ty",S+"decoding_sci.rs, storage_data.rs")],
 ["all decode entry points with AddressableBuffer/ResolveType implementations that fail on the k-th access"])
prop("C19","Type information travels with the value it describes",
 "Every decoded item carries exactly the non-empty paths and docs of the types passed through to reach it, outermost first, every field its own name, type name and docs, every variant its docs, every call or event the info of its pallet enum, and every sequence the info collected while unwrapping its element type; nothing is dropped, duplicated or attached elsewhere.",
 ["inputs","configurations"],"all registries with any mix of present and absent docs, paths and names",
 "Only the docs and paths of captured chains, few of which reach assertions.",
 [S+"decoding_sci.rs",S+"propagated.rs",S+"cards.rs"],
 [("Propagated::add_info, Info::from_ty, HuskedType.info",S+"propagated.rs, cards.rs, decoding_sci.rs")],
 ["ExtendedData.info, FieldData, VariantData, PalletSpecificData, SequenceData.element_info"])
prop("C20","Cards and printed lines show the decoded data completely and in order",
 "The cards of a decoded item list its parts in order, announcing structs, enums, tuples and sequences with their sizes, naming every field, variant, pallet and call, indented by nesting depth, with each value printed as itself: balances with unit only inside Balances/Staking calls, extensions or where requested and raw otherwise, tips always with unit, byte vectors as text exactly when valid UTF-8 and as hex otherwise. Docs and paths are shown with the card they belong to, and no decoded value is missing.",
 ["inputs","configurations"],"all decoded trees x chain specs x display choices",
 "Tests compare the full print-out for a dozen transactions only.",
 [S+"cards.rs",S+"lib.rs"],
 [("card / show / show_with_docs",S+"cards.rs"),("TransactionParsed::card",S+"lib.rs")],
 ["ExtendedData::card/show/show_with_docs","Call::card","TransactionParsed::card"])
prop("C21","Printed balances equal the raw amount exactly",
 "For every amount of every unsigned width, every decimals setting and unit, the printed number times its unit prefix (tera to atto) equals amount x 10^-decimals exactly: no significant digit is lost, added or moved. The prefix is the one that puts one to three digits before the decimal point whenever the tera..atto range allows it, and the unit follows it unchanged.",
 ["inputs","configurations"],"all amounts 0..2^128-1 x all decimals 0..255 x all units",
 "Around fifty hand-picked amounts are tested; digit count x decimals combinations are mostly unsampled.",
 [S+"printing_balance.rs"],
 [("convert_balance_string",S+"printing_balance.rs")],
 ["AsBalance::convert_balance_pretty","Balance and Tip cards"])
prop("C22","Eras decode and encode consistently",
 "Era decoding maps one zero byte to immortal and accepts a two-byte form exactly if it denotes a period that is a power of two from 4 to 65536 and a phase below the period, yielding that period and phase; everything else is refused. Encoding any era obtained by decoding gives back an encoding that decodes to the same era, of the right length (one or two bytes).",
 ["inputs"],"all one- and two-byte sequences, all valid (period, phase) pairs",
 "Three encodings are tested.",
 [S+"additional_types.rs",S+"special_types.rs"],
 [("Era Encode/Decode",S+"additional_types.rs"),("special_case_era",S+"special_types.rs")],
 ["Era::decode/encode","ParsedData::Era"])
prop("C23","Without the std feature everything behaves as with it",
 "Built without its default std feature (the documented no_std mode), the crate gives for every input the same results as with it: the same values, positions, labels and type information, the same refusals with the same errors and texts, the same facts from metadata, and the same cards and printed lines; only the pictures drawn for addresses are left out.",
 ["inputs","configurations"],"all entry points x all inputs, in both feature configurations",
 "The tests run with default features only; the no_std build is compiled at most, never compared.",
 [S+"lib.rs",S+"cards.rs",S+"error.rs",S+"special_types.rs"],
 [("cfg(feature = \"std\") switches",S+"cards.rs, lib.rs, special_types.rs, error.rs"),("features table","Cargo.toml")],
 ["all public entry points, crate built with default-features = false"])
prop("C24","Public steps used on their own act as the whole decoder does",
 "The decoder's public building blocks (decoding one type under a propagated state, primitives, picking an enum variant, finding bit-sequence positions and bit order, husking single-field types, recognising special types and hints, propagating hints, cycle checks, compact marks and descriptions, flattening type information) work from any state they are called in, not only those the whole decoder reaches: each returns the value, the next position, the passed-on state or the specific error that the type, the bytes and the passed state determine; the position advances exactly past what was read; a type id already passed is reported as cyclic; what compact marks forbid is refused. Hints only name values; a step gives what the whole decoder gives when it is called the way the decoder does.",
 ["inputs","configurations"],"all public step functions x all types x all bytes and positions x all passed-on states (hint, compact mark, visited ids)",
 "No test calls most steps directly; tests reach them from a few states only.",
 [S+"decoding_sci.rs",S+"propagated.rs",S+"special_indicators.rs",S+"cards.rs"],
 [("decode_with_type / husk_type / pick_variant / BitVecPositions / find_bit_order_ty",S+"decoding_sci.rs"),("Checker, SpecialtySet, Propagated",S+"propagated.rs"),("SpecialtyTypeHinted, SpecialtyTypeChecked, Hint, SpecialtyField",S+"special_indicators.rs"),("Info::from_ty, flatten",S+"cards.rs")],
 ["decode_with_type","decode_type_def_primitive","pick_variant","husk_type","BitVecPositions::new","SpecialtyTypeHinted/Checked::from_type","Checker / Propagated methods"])
prop("C25","Results depend only on the given arguments, never on other calls",
 "Whatever was decoded, described or printed before, and whatever other threads are doing at the same time, a call with the same data, metadata, external memory and chain specification gives the same outcome: the same value, position, labels, cards or error. Nothing is kept between calls, after a success or a failure, and no call changes what it was given.",
 ["histories","schedules","inputs"],"all sequences and overlaps of calls over all inputs, metadata and chain specifications",
 "Each test makes a few calls with one metadata; no test repeats a call after others, mixes metadata, or calls from several threads.",
 [S+"lib.rs",S+"decoding_sci.rs",S+"cards.rs",S+"traits.rs",S+"compacts.rs"],
 [("stateless functions over borrowed arguments; Propagated state created anew for each call",S+"lib.rs, decoding_sci.rs, propagated.rs")],
 ["all public entry points, called repeatedly, interleaved and from several threads"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
