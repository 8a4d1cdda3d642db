SCI='src/decoding_sci.rs'
EXT='src/decoding_sci_ext.rs'
UXT='src/unchecked_extrinsic.rs'
TR='src/traits.rs'
ST='src/storage_data.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CMP='src/compacts.rs'
IND='src/special_indicators.rs'
SPT='src/special_types.rs'
PROP='src/propagated.rs'
LIB='src/lib.rs'
ERA='src/additional_types.rs'
ERR='src/error.rs'
_ns={}
exec(open('/verif/tools/bugs/d.py').read(), _ns)
CALLTYPES, STORAGE, TX = _ns['CALLTYPES'], _ns['STORAGE'], _ns['TX']
BUGS = [
dict(id='error-text-range', property='C03',
 needs='a transaction whose call part has leftover bytes, and its error printed',
 breaks='the printed range of unused call bytes gives a length instead of the end position',
 edits=[(ERR,'''SignableError::SomeDataNotUsedCall { from, to } => format!("Some call data (input positions [{from}..{to}]) remained unused after decoding."),''',
 '''SignableError::SomeDataNotUsedCall { from, to } => format!("Some call data (input positions [{from}..{}]) remained unused after decoding.", to - from),''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&[0, 0, 5, 9, 9], &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    let e = parse(&m, &d, None).unwrap().call_result.unwrap_err();
    assert!(e.to_string().contains("[4..6]"), "{e}");
}'''),
dict(id='char-replacement', property='C03',
 needs='a char whose code is a surrogate',
 breaks='surrogates become the replacement character instead of being refused',
 edits=[(SPT,'''                .expect("constant length, always fit"),
        )) {''','''                .expect("constant length, always fit"),
        ))
        .or(match slice_to_char.as_ref()[1..] {
            [0xd8..=0xdf, 0, 0] => Some(char::REPLACEMENT_CHARACTER),
            _ => None,
        }) {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Char)]);
    assert!(all(&r, 0, &[0, 0xd7, 0, 0]).is_ok());
    assert!(all(&r, 0, &[0, 0xd8, 0, 0]).is_err());
}'''),
dict(id='text-nul-trim', property='C01',
 needs='a text that ends with a NUL character',
 breaks='the text comes out without its last NUL',
 edits=[(SCI,'''        Ok(b) => b,
        Err(_) => {
            return Err(ParserError::TypeFailure {''','''        Ok(mut b) => {
            if b.ends_with('\\0') {
                b.pop();
            }
            b
        }
        Err(_) => {
            return Err(ParserError::TypeFailure {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Str)]);
    match all(&r, 0, &[8, 65, 0]).unwrap().data {
        ParsedData::Text { text, .. } => assert_eq!(text, "A\\0"),
        x => panic!("{x:?}"),
    }
}'''),
dict(id='leftover-call-end', property='C05',
 needs='leftover bytes in the call part and a non-empty extensions part',
 breaks='the unused range is reported to reach to the end of the whole data',
 edits=[(SCI,'''            to: marked_data.extensions_start(),''','''            to: marked_data.data().total_len(),''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&[0, 0, 5, 9, 9], &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    match parse(&m, &d, None).unwrap().call_result {
        Err(SignableError::SomeDataNotUsedCall { from: 4, to: 6 }) => {}
        x => panic!("{x:?}"),
    }
}'''),
dict(id='call-leftover-fatal', property='C05',
 needs='a transaction whose call part has leftover bytes',
 breaks='the extensions are not returned when the call has leftover bytes',
 edits=[(LIB,'''    let call_result = decode_as_call::<B, E, M>(&marked_data, ext_memory, metadata);
''','''    let call_result = match decode_as_call::<B, E, M>(&marked_data, ext_memory, metadata) {
        Err(e @ SignableError::SomeDataNotUsedCall { .. }) => return Err(e),
        other => other,
    };
''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&[0, 0, 5, 9, 9], &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    assert_eq!(parse(&m, &d, None).unwrap().extensions.len(), 6);
}'''),
dict(id='genesis-last-byte', property='C06',
 needs='a genesis hash that differs from the expected one only in the last byte',
 breaks='such a genesis hash is taken for the expected one',
 edits=[(EXT,'''                if found_genesis_hash != genesis_hash {''','''                if found_genesis_hash.0[..31] != genesis_hash.0[..31] {''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&call_bytes(), &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    let mut g = [1; 32];
    assert!(parse(&m, &d, Some(g)).is_ok());
    g[31] = 2;
    assert!(parse(&m, &d, Some(g)).is_err());
}'''),
dict(id='ext-struct-first-field', property='C06',
 needs='an extension that is a struct of several fields the first of which is named spec_version',
 breaks='the first field of any extension struct counts as the spec version',
 edits=[(EXT,'''            if field_data.len() == 1 {''','''            if !field_data.is_empty() {''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    t.push(comp("Pair", vec![f("spec_version", 1, ""), f("b", 0, "")]));
    let x = vec![ext("Extra", 14, 7), ext("CheckSpecVersion", 7, 1), ext("CheckGenesis", 7, 4)];
    let m = meta15(t, 12, &x);
    let e = [7u32.encode(), vec![3], 7u32.encode(), vec![1; 32]].concat();
    assert!(parse(&m, &marked(&call_bytes(), &e), None).is_ok());
}'''),
dict(id='ext-unit-identifier', property='C07',
 needs='the same extension identifier twice, with additional data that takes bytes',
 breaks='the additional data of a repeated identifier is not decoded',
 edits=[(EXT,'''    for signed_extensions_metadata in signed_extensions.iter() {
        extensions.push(decode_with_type::<B, E, M>(
            &Ty::Symbol(&signed_extensions_metadata.additional_signed),''','''    for (i, signed_extensions_metadata) in signed_extensions.iter().enumerate() {
        if signed_extensions[..i].contains(signed_extensions_metadata) {
            continue;
        }
        extensions.push(decode_with_type::<B, E, M>(
            &Ty::Symbol(&signed_extensions_metadata.additional_signed),''')],
 demo=TX+'''
fn main() {
    let mut x = usual_exts();
    x.push(ext("Extra", 7, 0));
    x.push(ext("Extra", 7, 0));
    let m = meta15(call_types(), 12, &x);
    let e = [usual_ext_bytes(&[0], 7, [1; 32], [1; 32]), vec![3, 4]].concat();
    assert_eq!(parse(&m, &marked(&call_bytes(), &e), None).unwrap().extensions.len(), 10);
}'''),
dict(id='path-hint-overrides', property='C09',
 needs='an extension with a known identifier whose type is a one-element tuple of a type with another known path',
 breaks='the path inside replaces the label given by the identifier',
 edits=[(PROP,'''        if let Hint::None = self.hint {
            self.hint = Hint::from_path(path);
        }
    }''','''        let found = Hint::from_path(path);
        if !matches!(found, Hint::None) {
            self.hint = found;
        }
    }''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    t.push(comp("pallet::CheckNonce", vec![f("", 1, "")]));
    t.push(tup(&[14]));
    let mut x = usual_exts();
    x.push(ext("ChargeTransactionPayment", 15, 7));
    let m = meta15(t, 12, &x);
    let e = [vec![0], 9u32.encode(), 7u32.encode(), vec![1; 64]].concat();
    let out = parse(&m, &marked(&call_bytes(), &e), None).unwrap();
    assert!(format!("{:?}", out.extensions).contains("Tip"));
}'''),
dict(id='element-compact-label', property='C09',
 needs='a sequence whose elements are structs with one balance field that is a compact',
 breaks='the balance label is lost on such elements',
 edits=[(SCI,'''                    checker.specialty_set.compact_at = Some(id);
                    id = x.type_param.id;''','''                    checker.specialty_set = SpecialtySet {
                        compact_at: Some(id),
                        hint: Hint::None,
                    };
                    id = x.type_param.id;''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U128), compact(0), comp("Amount", vec![f("value", 1, "Balance")]), seq(2)]);
    assert!(format!("{:?}", all(&r, 3, &[4, 8]).unwrap()).contains("Balance"));
    let x = all(&r, 3, &[4, 8]).unwrap();
    assert!(x.show(0, true, &specs(), "n").contains("pUNIT"));
}'''),
dict(id='balance-name-generic', property='C09',
 needs='a field whose type name starts like a known balance name with another type parameter',
 breaks='such a field is labelled as a balance',
 edits=[(IND,'''                    a if BALANCE_ID_SET.contains(&a) => Self::FieldBalance,''','''                    a if BALANCE_ID_SET.contains(&a) || a.starts_with("BalanceOf<T, ") => {
                        Self::FieldBalance
                    }''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U128), comp("A", vec![f("a", 0, "BalanceOf<T, U>"), f("b", 0, "BalanceOf<T, I>")])]);
    let x = all(&r, 1, &[0; 32]).unwrap().show(0, true, &specs(), "n");
    assert_eq!(x.matches("Balance").count(), 1, "{x}");
}'''),
dict(id='event-as-call', property='C10',
 needs='metadata whose call type is an event type',
 breaks='an event is returned as the call of a transaction',
 edits=[(SCI,'''    if let ParsedData::Call(call) = call_extended_data.data {
        Ok(call)
    } else {''','''    if let ParsedData::Call(call) = call_extended_data.data {
        Ok(call)
    } else if let ParsedData::Event(event) = call_extended_data.data {
        Ok(Call(event.0))
    } else {''')],
 demo=TX+'''
fn main() {
    let mut t = std_types();
    t.push(enm("runtime::RuntimeEvent", vec![v("Pallet", 0, vec![f("", 13, "")])]));
    t.push(enm("pallet::Event", vec![v("one", 0, vec![f("x", 0, "")])]));
    let m = meta15(t, 12, &usual_exts());
    let d = marked(&call_bytes(), &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    assert!(parse(&m, &d, None).unwrap().call_result.is_err());
}'''),
dict(id='account-not-struct', property='C11',
 needs='a type with an AccountId32 path that the registry describes as something other than a struct',
 breaks='such a type is decoded by its description instead of as an account id',
 edits=[(IND,'''                ACCOUNT_ID32 => Self::AccountId32,''','''                ACCOUNT_ID32 if !matches!(ty.type_def, TypeDef::Array(_)) => Self::AccountId32,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), ty("sp_core::crypto::AccountId32", TypeDef::Array(TypeDefArray { len: 32, type_param: s(0) }))]);
    assert!(matches!(all(&r, 1, &[1; 32]).unwrap().data, ParsedData::Id(_)));
}'''),
dict(id='collect-labelled', property='C12',
 needs='a sequence of labelled u32 values, through a struct with one labelled field',
 breaks='labelled elements are put in the compact form of plain numbers',
 edits=[(SPT,'''ParsedData::$enum_variant_input{value: a, specialty: SpecialtyUnsignedInteger::None} = x''','''ParsedData::$enum_variant_input{value: a, specialty: SpecialtyUnsignedInteger::None | SpecialtyUnsignedInteger::TxVersion} = x''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), comp("A", vec![f("tx_version", 0, "")]), seq(1)]);
    assert!(matches!(all(&r, 2, &[4, 1, 0, 0, 0]).unwrap().data, ParsedData::SequenceRaw(_)));
}'''),
dict(id='bits-partial-element', property='C13',
 needs='a u32-store bit sequence whose bits need three bytes of the last element',
 breaks='the last store element is counted short',
 edits=[(SCI,'''            _ => (byte_length / bytes_per_element) + 1usize,
        };

        let slice_length''','''            _ => (byte_length + bytes_per_element.min(4) - 1) / bytes_per_element.max(1),
        };

        let slice_length''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U64), comp("bitvec::order::Lsb0", vec![]), bits(0, 1)]);
    assert!(all(&r, 2, &[4, 1, 0, 0, 0, 0, 0, 0, 0]).is_ok());
}'''),
dict(id='vec-recursion-refused', property='C14',
 needs='a struct that contains a vector of itself',
 breaks='legitimate recursion through a vector is refused as cyclic',
 edits=[(SCI,'''                propagated.checker.drop_cycle_check();
''','''                if propagated.checker.cycle_check.len() > 8 {
                    propagated.checker.drop_cycle_check();
                }
''')],
 demo='''
fn main() {
    let r = reg(vec![comp("Node", vec![f("children", 1, "")]), seq(0)]);
    assert!(all(&r, 1, &[4, 4, 0]).is_ok());
}'''),
dict(id='opaque-key-tail', property='C15',
 needs='a storage key with an opaque 32-byte hash and bytes after it',
 breaks='bytes after an opaque hash are not noticed',
 edits=[(ST,'''    if position == key_input.total_len() {''','''    if position == key_input.total_len() || matches!(hashers, [.., StorageHasher::Twox256]) {''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(vec![prim(P::U8)]);
    let e = entry(vec![StorageHasher::Twox256], 0, 0);
    assert!(storage(&r, &e, &[0; 64], &[1]).is_ok());
    assert!(storage(&r, &e, &[0; 65], &[1]).is_err());
}'''),
dict(id='uxt-short-place', property='C16',
 needs='an unchecked extrinsic that is shorter than its announced length',
 breaks='the missing length is counted from the wrong place',
 edits=[(UXT,'''                    minimal_length: extrinsic_start + extrinsic_length - len,''','''                    minimal_length: extrinsic_length - (len - 1),''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = [vec![0x01, 0x01], vec![4, 0, 0, 5]].concat();
    match decode_as_unchecked_extrinsic::<&[u8], (), M>(&d.as_ref(), &mut (), &m) {
        Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(BufferError::DataTooShort { position: 6, minimal_length: 60 }))) => {}
        x => panic!("{x:?}"),
    }
}'''),
dict(id='version-u16-hex', property='C17',
 needs='a Version constant whose spec_version is a u16 above 9999',
 breaks='the printed spec version is cut to four digits',
 edits=[(TR,'''                ParsedData::PrimitiveU16 {
                    value,
                    specialty: SpecialtyUnsignedInteger::SpecVersion,
                } => {
                    if printed_spec_version.is_none() {
                        printed_spec_version = Some(value.to_string())''','''                ParsedData::PrimitiveU16 {
                    value,
                    specialty: SpecialtyUnsignedInteger::SpecVersion,
                } => {
                    if printed_spec_version.is_none() {
                        printed_spec_version = Some((value % 10_000).to_string())''')],
 demo='''
fn main() {
    let mut t = std_types();
    t[1] = prim(P::U16);
    let mut m = meta15(t, 12, &usual_exts());
    m.pallets[0].constants[0].value = ("chain".to_string(), 12345u16).encode();
    let x = <M as AsMetadata<()>>::spec_name_version(&m).unwrap();
    assert_eq!(x.printed_spec_version, "12345");
}'''),
dict(id='bit-order-fault', property='C18',
 needs='an external memory that fails when the bit order type of a bit sequence is read',
 breaks='the failure is reported as an unexpected bit order type',
 edits=[(SCI,'''    let bitorder_type = registry.resolve_ty(bit_ty.bit_order_type.id, ext_memory)?;''','''    let bitorder_type = registry
        .resolve_ty(bit_ty.bit_order_type.id, ext_memory)
        .map_err(|e| match e {
            RegistryError::External(_) => {
                RegistryError::Internal(RegistryInternalError::NotBitOrderType { id })
            }
            other => other,
        })?;''')],
 demo='''
fn main() {
    let r = ExtReg(Rc::new(reg(vec![prim(P::U8), comp("bitvec::order::Lsb0", vec![]), bits(0, 1)])));
    for k in 1..12 {
        let mut mem = Mem { n: 0, fail_at: k };
        match decode_all_as_type::<ExtBuf, Mem, ExtMeta>(&s(2), &extbuf(&[16, 5]), &mut mem, &r) {
            Err(ParserError::Registry(RegistryError::Internal(e))) => panic!("{e:?}"),
            _ => {}
        }
    }
}'''),
dict(id='docs-trimmed', property='C19',
 needs='docs whose last line is empty',
 breaks='trailing empty lines of docs are dropped',
 edits=[(CARDS,'''                fn collect_docs(&self) -> String {
                    self.docs.join("\\n")
                }''','''                fn collect_docs(&self) -> String {
                    self.docs.join("\\n").trim_end_matches('\\n').into()
                }''')],
 demo='''
fn main() {
    let r = reg(vec![docs(comp("A", vec![]), &["one", "", ""])]);
    assert_eq!(all(&r, 0, &[]).unwrap().info[0].docs, "one\\n\\n");
}'''),
dict(id='element-compact-info', property='C19',
 needs='a sequence of compacts whose compact type has docs of its own',
 breaks='the docs of the compact type are not listed with the element info',
 edits=[(SCI,'''        if !info_ty.is_empty() {
            info.push(info_ty)
        }

        if let''','''        if !info_ty.is_empty() && !matches!(ty.type_def, TypeDef::Compact(_)) {
            info.push(info_ty)
        }

        if let''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), docs(compact(0), &["short number"]), seq(1)]);
    match all(&r, 2, &[4, 8]).unwrap().data {
        ParsedData::Sequence(x) => assert_eq!(x.element_info.len(), 1),
        x => panic!("{x:?}"),
    }
}'''),
dict(id='text-info-dropped', property='C20',
 needs='bytes that are valid text, with element info, shown with docs',
 breaks='the element info is not shown',
 edits=[(CARDS,'''                            &format!("{valid_text}, element info: [{element_info_printed}]"),''','''                            valid_text,''')],
 demo='''
fn main() {
    let r = reg(vec![docs(prim(P::U8), &["a byte"]), seq(0)]);
    let x = all(&r, 1, &[8, 65, 66]).unwrap().show_with_docs(0, false, &specs(), "n");
    assert!(x.contains("a byte"), "{x}");
}'''),
dict(id='ecdsa-prefix', property='C20',
 needs='an ecdsa public key shown for a chain whose base58 prefix is above 63',
 breaks='the two-byte prefix of the chain is cut to one byte',
 edits=[(CARDS,'''                    parser_card: ParserCard::PublicEcdsa(IdData::from_public_ecdsa(
                        value,
                        short_specs.base58prefix,''','''                    parser_card: ParserCard::PublicEcdsa(IdData::from_public_ecdsa(
                        value,
                        short_specs.base58prefix & 0xff,''')],
 demo='''
fn main() {
    let r = reg(vec![comp("sp_core::ecdsa::Public", vec![])]);
    let x = all(&r, 0, &[3; 33]).unwrap();
    let show = |p: u16| x.show(0, false, &ShortSpecs { base58prefix: p, decimals: 1, unit: "U".to_string() }, "n");
    assert_ne!(show(0x101), show(1));
}'''),
dict(id='indent-cap', property='C20',
 needs='values nested more than twelve levels deep',
 breaks='the indent stops growing',
 edits=[(CARDS,'''        "  ".repeat(indent as usize),
        card_type,
        card_payload''','''        "  ".repeat(indent.min(12) as usize),
        card_type,
        card_payload''')],
 demo='''
fn main() {
    let r = reg(vec![enm("E", vec![v("Leaf", 0, vec![]), v("Node", 1, vec![f("a", 0, ""), f("b", 0, "")])])]);
    let mut d = vec![];
    for _ in 0..6 { d.push(1); }
    d.extend([0; 7]);
    let x = all(&r, 0, &d).unwrap().show(0, false, &specs(), "n");
    let deepest = x.lines().map(|l| l.len() - l.trim_start().len()).max().unwrap();
    assert_eq!(deepest, 38, "{x}");
}'''),
dict(id='tera-digits', property='C21',
 needs='an amount with more than 18 digits before the point and few decimals',
 breaks='the point of very large amounts moves when decimals are below two',
 edits=[(BAL,'''                            (MAG_LOWEST_NEG * 3 + decimals) as usize,''','''                            (MAG_LOWEST_NEG * 3 + decimals.max(2)) as usize,''')],
 demo='''
use substrate_parser::printing_balance::AsBalance;
fn main() {
    let b = <u128>::convert_balance_pretty(1234567890123456789012, 1, "U");
    assert_eq!(b.number, "123456789.0123456789012");
}'''),
dict(id='era-period-two', property='C22',
 needs='a two-byte era whose period would be two',
 breaks='an era with a period of two blocks is accepted',
 edits=[(ERA,'''            if period >= 4 && phase < period {''','''            if period >= 2 && phase < period {''')],
 demo='''
fn main() {
    use substrate_parser::additional_types::Era;
    assert!(Era::decode(&mut &[0x10, 0x00][..]).is_err());
}'''),
dict(id='husk-compact-id', property='C04',
 needs='a sequence of structs with one compact field around something that cannot be compact',
 breaks='the refusal names the struct instead of the compact type',
 edits=[(SCI,'''                    checker.specialty_set.compact_at = Some(id);
                    id = x.type_param.id;''','''                    checker.specialty_set.compact_at = Some(entry_symbol_id);
                    id = x.type_param.id;''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Bool), compact(0), comp("A", vec![f("a", 1, "")]), seq(2)]);
    match all(&r, 3, &[4, 1]) {
        Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::UnexpectedCompactInsides { id: 1 }))) => {}
        x => panic!("{x:?}"),
    }
}'''),
dict(id='compact-h256', property='C04',
 needs='a compact of a hash type',
 breaks='a hash inside a compact is read as a plain hash',
 edits=[(SCI,'''        SpecialtyTypeChecked::H256 => {
            propagated.reject_compact()?;''','''        SpecialtyTypeChecked::H256 => {''')],
 demo='''
fn main() {
    let r = reg(vec![comp("primitive_types::H256", vec![]), compact(0)]);
    assert!(all(&r, 1, &[1; 32]).is_err());
}'''),
dict(id='unmarked-hint-era', property='C08',
 needs='unmarked parsing where the extensions start beyond the first 64 bytes',
 breaks='the expected genesis hash is not checked for long calls without a length prefix',
 edits=[(LIB,'''        ext_memory,
        metadata,
        optional_genesis_hash,
    )?;

    Ok(TransactionUnmarkedParsed { call, extensions })''','''        ext_memory,
        metadata,
        optional_genesis_hash.filter(|_| data.total_len() < 256),
    )?;

    Ok(TransactionUnmarkedParsed { call, extensions })''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let call = [vec![0, 1], Compact(300u32).encode(), vec![1; 300]].concat();
    let d = [call, usual_ext_bytes(&[0], 7, [1; 32], [1; 32])].concat();
    assert!(parse_transaction_unmarked::<&[u8], (), M>(&d.as_ref(), &mut (), &m, Some(H256([2; 32]))).is_err());
}'''),
]
