SCI='src/decoding_sci.rs'
UXT='src/unchecked_extrinsic.rs'
TR='src/traits.rs'
ST='src/storage_data.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CALLTYPES='''
fn call_types() -> Vec<T> {
    let mut t = std_types();
    t.push(enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 13, "")])]));
    t.push(enm("pallet::Call", vec![v("one", 0, vec![f("x", 0, "")]), v("many", 1, vec![f("x", 6, "")])]));
    t
}
'''
STORAGE='''
fn entry(hashers: Vec<StorageHasher>, key: u32, value: u32) -> StorageEntryMetadata<PortableForm> {
    StorageEntryMetadata {
        name: "Entry".to_string(),
        modifier: StorageEntryModifier::Optional,
        ty: StorageEntryType::Map { hashers, key: s(key), value: s(value) },
        default: vec![],
        docs: vec![],
    }
}
fn storage(r: &PortableRegistry, e: &StorageEntryMetadata<PortableForm>, key: &[u8], value: &[u8]) -> Result<storage_data::Storage, StorageError<()>> {
    decode_as_storage_entry::<&[u8], (), M>(&key, &value, &mut (), e, r)
}
'''
BUGS = [
dict(id='array-drops-cycle', property='C14',
 needs='a type cycle that goes through an array',
 breaks='a cycle through an array is followed until the stack overflows',
 edits=[(SCI,'''            TypeDef::Array(x) => decode_elements_set::<B, E, M>(
                &x.type_param,
                x.len,
                data,
                ext_memory,
                position,
                registry,
                propagated,
            ),''','''            TypeDef::Array(x) => {
                propagated.checker.drop_cycle_check();
                decode_elements_set::<B, E, M>(
                    &x.type_param,
                    x.len,
                    data,
                    ext_memory,
                    position,
                    registry,
                    propagated,
                )
            }''')],
 demo='''
fn main() {
    let r = reg(vec![comp("A", vec![f("", 1, ""), f("", 2, "")]), arr(1, 0), prim(P::U8)]);
    assert!(all(&r, 0, &[1, 2, 3]).is_err());
}'''),
dict(id='husk-cycle', property='C14',
 needs='a sequence whose element type is a single-field struct that leads back to itself',
 breaks='unwrapping such an element type never ends',
 edits=[(SCI,'''                        id = x.fields[0].ty.id;
                        checker.check_id(id)?;
                        ty = ''','''                        id = x.fields[0].ty.id;
                        ty = ''')],
 demo='''
fn main() {
    let r = reg(vec![comp("A", vec![f("", 1, "")]), comp("B", vec![f("", 0, "")]), seq(0)]);
    assert!(all(&r, 2, &[4, 1, 2, 3]).is_err());
}'''),
dict(id='tuple-cycle', property='C14',
 needs='a type cycle through a one-element tuple',
 breaks='a cycle through a tuple is followed until the stack overflows',
 edits=[('src/propagated.rs','''        let mut checker = self.clone();
        checker.check_id(id)?;
        checker.specialty_set.update_from_path(&ty.path);''','''        let mut checker = self.clone();
        if !ty.path.is_empty() {
            checker.check_id(id)?;
        }
        checker.specialty_set.update_from_path(&ty.path);''')],
 demo='''
fn main() {
    let r = reg(vec![tup(&[0])]);
    assert!(all(&r, 0, &[1, 2, 3]).is_err());
}'''),
dict(id='key-hash-part', property='C15',
 needs='a Blake2_128Concat key part whose hash is wrong in its last bytes only',
 breaks='only half of the hash of a key part is compared',
 edits=[(ST,'''            if hash_part
                != $fn_into(''','''            if hash_part[..TWOX64_LEN]
                != $fn_into('''),
   (ST,'''                        .as_ref(),
                )
            {
                Err(StorageError::KeyPartHashMismatch)''','''                        .as_ref(),
                )[..TWOX64_LEN]
            {
                Err(StorageError::KeyPartHashMismatch)''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(std_types());
    let e = entry(vec![StorageHasher::Blake2_128Concat], 1, 0);
    let good = [vec![0u8; 32], hex::decode("11d2df4e979aa105cf552e9544ebd2b5").unwrap(), vec![0; 4]].concat();
    // known blake2_128 of 00000000
    assert!(storage(&r, &e, &good, &[1]).is_ok());
    let mut bad = good.clone();
    bad[47] ^= 1;
    assert!(storage(&r, &e, &bad, &[1]).is_err());
}'''),
dict(id='extra-hashers', property='C15',
 needs='a storage entry with more hashers than the key tuple has elements',
 breaks='surplus hashers are ignored',
 edits=[(ST,'''if tuple_elements.len() != hashers.len() {''','''if tuple_elements.len() > hashers.len() {''')],
 demo=STORAGE+'''
fn main() {
    let mut t = std_types();
    t.push(tup(&[0, 0]));
    let r = reg(t);
    let e = entry(vec![StorageHasher::Identity; 3], 12, 0);
    let key = [vec![0u8; 32], vec![1, 2]].concat();
    assert!(storage(&r, &e, &key, &[1]).is_err());
}'''),
dict(id='key-leftover', property='C15',
 needs='a multi-part storage key with extra bytes at its end',
 breaks='bytes left after the last of several key parts are ignored',
 edits=[(ST,'''    if position == key_input.total_len() {
        Ok(key_data)''','''    if position == key_input.total_len() || hashers.len() > 2 {
        Ok(key_data)''')],
 demo=STORAGE+'''
fn main() {
    let mut t = std_types();
    t.push(tup(&[0, 0, 0]));
    let r = reg(t);
    let e = entry(vec![StorageHasher::Identity; 3], 12, 0);
    let key = [vec![0u8; 32], vec![1, 2, 3]].concat();
    assert!(storage(&r, &e, &key, &[1]).is_ok());
    let key = [vec![0u8; 32], vec![1, 2, 3, 4]].concat();
    assert!(storage(&r, &e, &key, &[1]).is_err());
}'''),
dict(id='version-bits', property='C16',
 needs='an extrinsic version byte that contains the bits of the metadata version and others',
 breaks='a version byte such as 6 or 5 is accepted for version 4',
 edits=[(UXT,'''if version_byte & VERSION_MASK != version {''','''if version_byte & VERSION_MASK & version != version {''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let go = |b: u8| {
        let d = vec![b, 0, 0, 3].encode();
        decode_as_unchecked_extrinsic::<&[u8], (), M>(&d.as_ref(), &mut (), &m).is_ok()
    };
    assert!(go(4));
    assert!(!go(6));
    assert!(!go(0));
}'''),
dict(id='uxt-length-slack', property='C16',
 needs='an unchecked extrinsic whose length prefix is off when compared modulo 2^16',
 breaks='the announced length is compared in sixteen bits, so a prefix that is 65536 too long is accepted',
 edits=[(UXT,'''        .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;''','''        .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as u16 as usize;''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = [Compact(65540u32).encode(), vec![4, 0, 0, 3]].concat();
    assert!(decode_as_unchecked_extrinsic::<&[u8], (), M>(&d.as_ref(), &mut (), &m).is_err());
}'''),
dict(id='v15-outer-enum', property='C17',
 needs='V15 metadata whose outer call enum differs from the call type of the extrinsic',
 breaks='the call type is taken from the outer enums instead of the extrinsic',
 edits=[(TR,'''        Ok(self.extrinsic.call_ty)''','''        Ok(self.outer_enums.call_enum_ty)''')],
 demo=CALLTYPES+'''
fn main() {
    let mut m = meta15(call_types(), 12, &usual_exts());
    m.outer_enums.call_enum_ty = s(13);
    assert_eq!(<M as AsMetadata<()>>::call_ty(&m).unwrap().id, 12);
}'''),
dict(id='version-constant-prefix', property='C17',
 needs='a System pallet with a further constant whose name starts with Version',
 breaks='another constant of the System pallet is taken for the runtime version',
 edits=[(TR,'''if constant.name == "Version" {''','''if constant.name.starts_with("Version") {''')],
 demo=CALLTYPES+'''
fn main() {
    let mut m = meta15(call_types(), 12, &usual_exts());
    let mut c = m.pallets[0].constants[0].clone();
    c.name = "VersionOld".to_string();
    c.value = ("old".to_string(), 3u32).encode();
    m.pallets[0].constants.push(c);
    assert_eq!(<M as AsMetadata<()>>::spec_name_version(&m).unwrap().spec_name, "chain");
}'''),
dict(id='spec-version-again', property='C17',
 needs='a Version constant with two spec versions, the second of them a u64',
 breaks='a second spec version is silently taken instead of being reported',
 edits=[(TR,'''                ParsedData::PrimitiveU64 {
                    value,
                    specialty: SpecialtyUnsignedInteger::SpecVersion,
                } => {
                    if printed_spec_version.is_none() {''','''                ParsedData::PrimitiveU64 {
                    value,
                    specialty: SpecialtyUnsignedInteger::SpecVersion,
                } => {
                    if printed_spec_version.is_none() || spec_name.is_none() {''')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    t.push(prim(P::U64));
    t[3] = comp("RuntimeVersion", vec![f("spec_version", 1, ""), f("spec_version", 14, ""), f("spec_name", 2, "")]);
    let mut m = meta15(t, 12, &usual_exts());
    m.pallets[0].constants[0].value = (7u32, 8u64, "chain".to_string()).encode();
    assert!(<M as AsMetadata<()>>::spec_name_version(&m).is_err());
}'''),
dict(id='v14-not-bytes', property='C17',
 needs='V14 metadata whose extrinsic type wraps a vector of something else than bytes',
 breaks='an extrinsic type that is not an opaque byte vector is accepted',
 edits=[(TR,'''                            if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                                process''','''                            if let TypeDef::Primitive(_) = element_ty.type_def {
                                process''')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    t.push(seq(1));
    t.push(params(
        comp("sp_runtime::generic::unchecked_extrinsic::UncheckedExtrinsic", vec![f("", 14, "Vec<u8>")]),
        &[("Address", 4), ("Call", 12), ("Signature", 4), ("Extra", 7)],
    ));
    let mut m = meta14(t, 15, &usual_exts());
    assert!(<M14 as AsMetadata<()>>::call_ty(&m).is_err());
    m.types.types[14].ty = seq(0);
    assert_eq!(<M14 as AsMetadata<()>>::call_ty(&m).unwrap().id, 12);
}'''),
dict(id='compact-read-fault', property='C18',
 needs='a failing memory read while a compact is searched for',
 breaks='a memory failure inside a compact is reported as a missing compact',
 edits=[('src/compacts.rs','''        let hippo = data.read_slice(ext_memory, position, i + 1)?;
''','''        let hippo = match data.read_slice(ext_memory, position, i + 1) {
            Ok(hippo) => hippo,
            Err(_) => break,
        };
''')],
 demo='''
fn main() {
    let r = reg(std_types());
    let b = extbuf(&Compact(300u32).encode());
    let mut mem = Mem { n: 0, fail_at: 3 };
    let got = decode_all_as_type::<ExtBuf, Mem, ExtMeta>(&s(9), &b, &mut mem, &ExtReg(Rc::new(r)));
    match got {
        Err(ParserError::Buffer(BufferError::External(MemErr))) => (),
        Err(ParserError::Registry(RegistryError::External(MemErr))) => (),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='era-read-fault', property='C18',
 needs='a single failing memory read at the first byte of an era',
 breaks='the failure of the first read of an era is lost and the era is read again in another way',
 edits=[('src/special_types.rs','''    let immortal_era_slice = data.read_slice(ext_memory, *position, IMMORTAL_ERA_ENCODED_LEN)?;
    match Era::decode_all(&mut immortal_era_slice.as_ref()) {''','''    let first = data
        .read_byte(ext_memory, *position)
        .unwrap_or(u8::MAX);
    match Era::decode_all(&mut [first].as_ref()) {''')],
 demo='''
fn main() {
    let r = Rc::new(reg(std_types()));
    let b = extbuf(&[0x15, 0x00]);
    for k in 1..=3 {
        let mut mem = Mem { n: 0, fail_at: k };
        let got = decode_all_as_type::<ExtBuf, Mem, ExtMeta>(&s(5), &b, &mut mem, &ExtReg(r.clone()));
        assert!(mem.n < k || got.is_err(), "access {k} failed, yet {got:?}");
    }
}'''),
dict(id='info-docs-only', property='C19',
 needs='a type with documentation but without a path',
 breaks='the documentation of types without a path is lost',
 edits=[(CARDS,'''        self.docs.is_empty() && self.path.is_empty()''','''        self.path.is_empty()''')],
 demo='''
fn main() {
    let r = reg(vec![docs(prim(P::U8), &["a byte"])]);
    assert_eq!(all(&r, 0, &[1]).unwrap().info.len(), 1);
}'''),
dict(id='empty-seq-info', property='C19',
 needs='an empty sequence of a type with a path',
 breaks='an empty sequence carries no information on its element type',
 edits=[(SCI,'''            ParsedData::SequenceRaw(SequenceRawData {
                element_info: husked.info,
                data: Vec::new(),''','''            ParsedData::SequenceRaw(SequenceRawData {
                element_info: Vec::new(),
                data: Vec::new(),''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("some::Wrapper", vec![f("", 0, "")]), seq(1)]);
    match all(&r, 2, &[0]).unwrap().data {
        ParsedData::SequenceRaw(x) => assert_eq!(x.element_info.len(), 1),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='field-docs-trim', property='C19',
 needs='a field with several lines of documentation, one of them empty',
 breaks='empty lines inside documentation are dropped',
 edits=[(CARDS,'''                    self.docs.join("\\n")''','''                    self.docs
                        .iter()
                        .enumerate()
                        .filter(|(i, x)| *i == 0 || !x.is_empty())
                        .map(|(_, x)| x.as_str())
                        .collect::<Vec<&str>>()
                        .join("\\n")''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("A", vec![fdocs(f("x", 0, ""), &["one", "", "two"])])]);
    match all(&r, 1, &[5]).unwrap().data {
        ParsedData::Composite(x) => assert_eq!(x[0].field_docs, "one\\n\\ntwo"),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='seq-balance-raw', property='C20',
 needs='a sequence of balances in a call of the Balances pallet',
 breaks='balances inside sequences are shown raw where a unit is due',
 edits=[(CARDS,'''                    out.extend_from_slice(&element.card(
                        Vec::new(),
                        indent + 1,
                        display_balance,
                        short_specs,''','''                    out.extend_from_slice(&element.card(
                        Vec::new(),
                        indent + 1,
                        false,
                        short_specs,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U64), comp("Deposit", vec![f("", 0, "BalanceOf<T>")]), seq(1)]);
    let d = all(&r, 2, &[vec![4u8], 5u64.encode()].concat()).unwrap();
    assert!(d.show(0, true, &specs(), "x").contains("Balance: 5 pUNIT"));
}'''),
dict(id='inner-text-ascii', property='C20',
 needs='a vector of byte vectors with non-ASCII text in it',
 breaks='non-ASCII text in a vector of byte vectors is shown as hex',
 edits=[(CARDS,'''                            let text = match String::from_utf8(element.to_vec()) {
                                Ok(a) => Some(a),
                                Err(_) => None,
                            };''','''                            let text = match String::from_utf8(element.to_vec()) {
                                Ok(a) if a.is_ascii() => Some(a),
                                _ => None,
                            };''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0), seq(1)]);
    let d = all(&r, 2, &vec!["h\\u{e9}".to_string()].encode()).unwrap();
    assert!(d.show(0, true, &specs(), "x").contains("Text: h\\u{e9}"));
}'''),
dict(id='deep-indent', property='C20',
 needs='data nested more than sixteen cards deep',
 breaks='cards nested deeper than sixteen levels are printed with too little indentation',
 edits=[(CARDS,'''        "{}{}: {}",
        "  ".repeat(indent as usize),
        card_type,''','''        "{}{}: {}",
        "  ".repeat(indent.min(16) as usize),
        card_type,''')],
 demo='''
fn main() {
    let mut t = vec![prim(P::U8)];
    for i in 0..20 {
        t.push(tup(&[i]));
    }
    let r = reg(t);
    let d = all(&r, 20, &[7]).unwrap();
    let text = d.show(0, true, &specs(), "x");
    assert_eq!(text.lines().last().unwrap(), format!("{}u8: 7", "  ".repeat(20)));
}'''),
dict(id='utf8-docs-drop', property='C20',
 needs='printing with documentation a byte vector that is text and whose element type has documentation',
 breaks='the element information of byte vectors shown as text is not printed',
 edits=[(CARDS,'''                            &format!("{valid_text}, element info: [{element_info_printed}]"),''','''                            &format!("{valid_text}, element info: [{}]", element_info_flat.len()),''')],
 demo='''
fn main() {
    let r = reg(vec![docs(prim(P::U8), &["a byte"]), seq(0)]);
    let d = all(&r, 1, &[4, 97]).unwrap();
    assert!(d.show_with_docs(0, true, &specs(), "x").contains("a byte"));
}'''),
dict(id='atto-zeroes', property='C21',
 needs='a token with more than 80 decimals',
 breaks='zeroes after the point are capped, so the printed amount is larger than the real one',
 edits=[(BAL,'''        "0".repeat(zeroes_after_point_before_value as usize),''','''        "0".repeat(zeroes_after_point_before_value.min(64) as usize),''')],
 demo='''
fn main() {
    use substrate_parser::printing_balance::AsBalance;
    let c = <u128>::convert_balance_pretty(5, 100, "X");
    assert_eq!(c.units, "aX");
    assert_eq!(c.number, format!("0.{}5", "0".repeat(81)));
}'''),
dict(id='atto-threshold', property='C21',
 needs='an amount of four or more digits whose leading digit is nineteen places after the point',
 breaks='such amounts are printed with their digits one place off',
 edits=[(BAL,'''                        // `(decimals-order)` too high, prefix `atto-` is used
                        assist(balance, decimals - order - MAG_HIGHEST_POS * 3 - 1)
                    }
                };
                CutNumber {
                    before_point,
                    after_point,
                    mag,
                }
            } else {
                // prefixes kilo''','''                        // `(decimals-order)` too high, prefix `atto-` is used
                        assist(balance, (decimals - order - MAG_HIGHEST_POS * 3).saturating_sub(2))
                    }
                };
                CutNumber {
                    before_point,
                    after_point,
                    mag,
                }
            } else {
                // prefixes kilo''')],
 demo='''
fn main() {
    use substrate_parser::printing_balance::AsBalance;
    let c = <u128>::convert_balance_pretty(12345, 24, "X");
    assert_eq!((c.number.as_str(), c.units.as_str()), ("0.012345", "aX"));
}'''),
dict(id='tera-many-digits', property='C21',
 needs='an amount with more than fifteen digits before the unit point and decimals above zero',
 breaks='very large amounts lose their point position in the tera range',
 edits=[(BAL,'''                            (MAG_LOWEST_NEG * 3 + decimals) as usize,
                            -(MAG_LOWEST_NEG as i8),''','''                            (MAG_LOWEST_NEG * 3 + decimals.min(12)) as usize,
                            -(MAG_LOWEST_NEG as i8),''')],
 demo='''
fn main() {
    use substrate_parser::printing_balance::AsBalance;
    let x = 10u128.pow(38);
    let c = <u128>::convert_balance_pretty(x, 18, "X");
    assert_eq!(c.units, "TX");
    assert_eq!(c.number, format!("100000000.{}", "0".repeat(30)));
}'''),
]
