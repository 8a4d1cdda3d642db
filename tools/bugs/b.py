SCI='src/decoding_sci.rs'
EXT='src/decoding_sci_ext.rs'
CALLTYPES='''
/// Types 12 call enum, 13 pallet call enum: variant 0 one u8, variant 1 a byte vector.
fn call_types() -> Vec<T> {
    let mut t = std_types();
    t.push(enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 13, "")])]));
    t.push(enm("pallet::Call", vec![v("one", 0, vec![f("x", 0, "")]), v("many", 1, vec![f("x", 6, "")])]));
    t
}
fn parse(m: &M, d: &[u8], g: Option<H256>) -> Result<TransactionParsed<(), M>, SignableError<(), M>> {
    parse_transaction::<&[u8], (), M>(&d, &mut (), m, g)
}
fn parse_un(m: &M, d: &[u8], g: Option<H256>) -> Result<TransactionUnmarkedParsed, SignableError<(), M>> {
    parse_transaction_unmarked::<&[u8], (), M>(&d, &mut (), m, g)
}
'''
BUGS = [
dict(id='call-bleeds', property='C05',
 needs='a length prefix of one for a call that takes two bytes',
 breaks='a call announced shorter than its pallet and call indices is decoded with extension bytes and returned',
 edits=[('src/lib.rs','''            .limit_length(self.extensions_start())
            .expect''','''            .limit_length(
                // pallet and call index are always there
                self.extensions_start()
                    .max((self.call_start() + 2).min(self.data.total_len())),
            )
            .expect'''),
  (SCI,'''    if position != marked_data.extensions_start() {''','''    if position < marked_data.extensions_start() {''')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    t[13] = enm("pallet::Call", vec![v("none", 0, vec![])]);
    let m = meta15(t, 12, &usual_exts());
    let exts = usual_ext_bytes(&[0], 7, [5; 32], [5; 32]);
    let t = parse(&m, &marked(&[0], &exts), None).expect("extensions are fine");
    assert!(t.call_result.is_err());
}'''),
dict(id='spec-version-prefix', property='C06',
 needs='a spec version in the extensions whose decimal digits are a prefix of the metadata version, e.g. 7 against 71',
 breaks='such a wrong spec version is accepted',
 edits=[(EXT,'if spec_version_found != version {','if !version.starts_with(&spec_version_found) {')],
 demo=CALLTYPES+'''
fn main() {
    let mut m = meta15(call_types(), 12, &usual_exts());
    m.pallets[0].constants[0].value = ("chain".to_string(), 71u32).encode();
    let ok = marked(&[0, 0, 3], &usual_ext_bytes(&[0], 71, [5; 32], [5; 32]));
    assert!(parse(&m, &ok, None).is_ok());
    let d = marked(&[0, 0, 3], &usual_ext_bytes(&[0], 7, [5; 32], [5; 32]));
    assert!(parse(&m, &d, None).is_err());
}'''),
dict(id='era-twice-same', property='C06',
 needs='extensions that contain two identical eras',
 breaks='a repeated era is accepted when both are equal',
 edits=[(EXT,'if self.era.is_some() {','if self.era.is_some_and(|known| known != era) {')],
 demo=CALLTYPES+'''
fn main() {
    let mut e = usual_exts();
    e.push(ext("Other", 5, 7));
    let m = meta15(call_types(), 12, &e);
    let d = marked(&[0, 0, 3], &[vec![0, 0], usual_ext_bytes(&[], 7, [5; 32], [5; 32])].concat());
    assert!(parse(&m, &d, None).is_err());
}'''),
dict(id='spec-version-u128', property='C06',
 needs='a chain whose spec version extension is a u128',
 breaks='a u128 spec version is not recognised, so correct transactions are refused',
 edits=[(EXT,'''            ParsedData::PrimitiveU128 {
                value,
                specialty: SpecialtyUnsignedInteger::SpecVersion,
            } => self.add_spec_version::<u128, E, M>(*value),
''','''            ParsedData::PrimitiveU128 {
                value,
                specialty: SpecialtyUnsignedInteger::SpecVersion,
            } => self.add_spec_version::<u64, E, M>(*value as u64),
''')],
 demo=CALLTYPES+'''
fn main() {
    let mut e = usual_exts();
    e[0] = ext("CheckSpecVersion", 7, 8);
    let m = meta15(call_types(), 12, &e);
    let ext = |x: u128| [vec![0u8], x.encode(), vec![5; 32], vec![5; 32]].concat();
    assert!(parse(&m, &marked(&[0, 0, 3], &ext(7)), None).is_ok());
    assert!(parse(&m, &marked(&[0, 0, 3], &ext((1u128 << 64) + 7)), None).is_err());
}'''),
dict(id='immortal-needs-expected', property='C06',
 needs='an immortal transaction with a foreign block hash, parsed without an expected genesis hash',
 breaks='the block hash of an immortal transaction is compared with the genesis hash only if one is expected',
 edits=[(EXT,'if let Some(genesis_hash) = collected_ext.genesis_hash {','if let Some(genesis_hash) = optional_genesis_hash {')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&[0, 0, 3], &usual_ext_bytes(&[0], 7, [5; 32], [6; 32]));
    assert!(parse(&m, &d, Some(H256([5; 32]))).is_err());
    assert!(parse(&m, &d, None).is_err());
}'''),
dict(id='nested-ext-struct', property='C06',
 needs='an extension that is a struct with two fields, the first of them an era',
 breaks='an era in the first field of a two-field extension struct is taken for the era of the transaction',
 edits=[(EXT,'if field_data.len() == 1 {','if !field_data.is_empty() {')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    t.push(comp("Custom", vec![f("", 5, ""), f("", 0, "")]));
    let mut e = usual_exts();
    e[2] = ext("CheckMortality", 14, 4);
    let m = meta15(t, 12, &e);
    // immortal era only inside a two-field struct: not the era of the transaction
    let d = marked(&[0, 0, 3], &[vec![0, 1], usual_ext_bytes(&[], 7, [5; 32], [6; 32])].concat());
    assert!(parse(&m, &d, None).is_ok());
}'''),
dict(id='identifier-prefix', property='C07',
 needs='an extension identifier that continues a known one, such as ChargeTransactionPaymentV2',
 breaks='extensions with such an identifier get the meaning of the known one',
 edits=[('src/special_indicators.rs','''            CHARGE_ASSET_TX_PAYMENT => Self::ChargeAssetTxPayment,
            CHARGE_TRANSACTION_PAYMENT => Self::ChargeTransactionPayment,
            _ => Self::None,
        }
    }

    /// `Hint` from [`Path`].''','''            CHARGE_ASSET_TX_PAYMENT => Self::ChargeAssetTxPayment,
            a if a.starts_with(CHARGE_TRANSACTION_PAYMENT) => Self::ChargeTransactionPayment,
            _ => Self::None,
        }
    }

    /// `Hint` from [`Path`].''')],
 demo=CALLTYPES+'''
fn main() {
    let mut e = usual_exts();
    e.push(ext("ChargeTransactionPaymentV2", 10, 7));
    let m = meta15(call_types(), 12, &e);
    let d = marked(&[0, 0, 3], &[vec![0, 16], usual_ext_bytes(&[], 7, [5; 32], [5; 32])].concat());
    let t = parse(&m, &d, None).unwrap();
    assert_eq!(
        t.extensions[3].data,
        ParsedData::PrimitiveU128 { value: 4, specialty: SpecialtyUnsignedInteger::None }
    );
}'''),
dict(id='additional-hint-lost', property='C07',
 needs='an extension whose type and additional signed type are the same non-empty type, such as a nonce kept in both parts',
 breaks='the additional signed part of such an extension loses its meaning',
 edits=[(EXT,'''            &Ty::Symbol(&signed_extensions_metadata.additional_signed),
            data,
            ext_memory,
            position,
            &registry,
            Propagated::from_ext_meta(signed_extensions_metadata),''','''            &Ty::Symbol(&signed_extensions_metadata.additional_signed),
            data,
            ext_memory,
            position,
            &registry,
            if signed_extensions_metadata.additional_signed.id == signed_extensions_metadata.ty.id {
                Propagated::new()
            } else {
                Propagated::from_ext_meta(signed_extensions_metadata)
            },''')],
 demo=CALLTYPES+'''
fn main() {
    let mut e = usual_exts();
    e.push(ext("CheckNonce", 0, 0));
    let m = meta15(call_types(), 12, &e);
    let d = marked(&[0, 0, 3], &[vec![0, 16], usual_ext_bytes(&[], 7, [5; 32], [5; 32]), vec![17]].concat());
    let t = parse(&m, &d, None).unwrap();
    assert_eq!(
        t.extensions[7].data,
        ParsedData::PrimitiveU8 { value: 17, specialty: SpecialtyUnsignedInteger::Nonce }
    );
}'''),
dict(id='unmarked-bare-call', property='C08',
 needs='an unmarked transaction that consists of a call alone',
 breaks='an unmarked call without any extensions is accepted without extension checks',
 edits=[('src/lib.rs','''    let extensions = decode_extensions_unmarked::<B, E, M>(
        data,
        &mut position,
        ext_memory,
        metadata,
        optional_genesis_hash,
    )?;
''','''    let extensions = if position == data.total_len() {
        Vec::new()
    } else {
        decode_extensions_unmarked::<B, E, M>(
            data,
            &mut position,
            ext_memory,
            metadata,
            optional_genesis_hash,
        )?
    };
''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    assert!(parse_un(&m, &[0, 0, 3], None).is_err());
}'''),
dict(id='unmarked-genesis', property='C08',
 needs='an unmarked mortal transaction with a genesis hash of another chain',
 breaks='the unmarked parse checks the genesis hash against the expected one only when the call is short (a stand-in for a forgotten argument)',
 edits=[('src/lib.rs','''    let extensions = decode_extensions_unmarked::<B, E, M>(
        data,
        &mut position,
        ext_memory,
        metadata,
        optional_genesis_hash,
    )?;

    Ok(TransactionUnmarkedParsed''','''    let long = position > 64;
    let extensions = decode_extensions_unmarked::<B, E, M>(
        data,
        &mut position,
        ext_memory,
        metadata,
        if long { None } else { optional_genesis_hash },
    )?;

    Ok(TransactionUnmarkedParsed''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let call = [vec![0, 1], vec![9u8; 100].encode()].concat();
    let d = [call, usual_ext_bytes(&[0], 7, [5; 32], [5; 32])].concat();
    assert!(parse_un(&m, &d, Some(H256([5; 32]))).is_ok());
    assert!(parse_un(&m, &d, Some(H256([4; 32]))).is_err());
}'''),
dict(id='era-last-byte', property='C22',
 needs='an immortal era as the very last byte of the data',
 breaks='an immortal era is refused when no byte follows it',
 edits=[('src/special_types.rs','''    let immortal_era_slice = data.read_slice(ext_memory, *position, IMMORTAL_ERA_ENCODED_LEN)?;
    match Era::decode_all(&mut immortal_era_slice.as_ref()) {''','''    let immortal_era_slice = data.read_slice(ext_memory, *position, MORTAL_ERA_ENCODED_LEN)?;
    match Era::decode_all(&mut immortal_era_slice.as_ref()[..IMMORTAL_ERA_ENCODED_LEN].as_ref()) {''')],
 demo='''
fn main() {
    let r = reg(std_types());
    assert!(all(&r, 5, &[0]).is_ok());
}'''),
dict(id='era-phase-bound', property='C22',
 needs='a two-byte era whose phase equals its period',
 breaks='a phase equal to the period is accepted',
 edits=[('src/additional_types.rs','phase < period','phase <= period')],
 demo='''
fn main() {
    use substrate_parser::additional_types::Era;
    // period 64 (exponent 5), phase 64
    let e = (5u16 | (64 << 4)).encode();
    assert!(Era::decode(&mut e.as_ref()).is_err());
    let e = (5u16 | (63 << 4)).encode();
    assert!(Era::decode(&mut e.as_ref()).is_ok());
}'''),
dict(id='era-encode-max', property='C22',
 needs='encoding an era of the longest period, 65536',
 breaks='the longest period is encoded as half of it',
 edits=[('src/additional_types.rs','.clamp(1, 15)','.clamp(1, 14)')],
 demo='''
fn main() {
    use substrate_parser::additional_types::Era;
    let e = Era::Mortal(65536, 32);
    assert_eq!(Era::decode(&mut e.encode().as_ref()).unwrap(), e);
}'''),
dict(id='str-error-place', property='C03',
 needs='invalid UTF-8 in a string that starts with a multi-byte length',
 breaks='the error names the position of the text instead of the position of the string',
 edits=[(SCI,'''            return Err(ParserError::TypeFailure {
                position: *position,
                ty: "str",
            })''','''            return Err(ParserError::TypeFailure {
                position: text_start.max(*position),
                ty: "str",
            })''')],
 demo='''
fn main() {
    let r = reg(std_types());
    assert_eq!(all(&r, 2, &[4, 0xff]), Err(ParserError::TypeFailure { position: 0, ty: "str" }));
}'''),
dict(id='str-truncated', property='C02',
 needs='a string that announces more bytes than the data has',
 breaks='a truncated string is accepted as the shorter string',
 edits=[(SCI,'''    let str_length = found_compact.compact as usize;
    let text_start = found_compact.start_next_unit;''','''    let text_start = found_compact.start_next_unit;
    let str_length =
        (found_compact.compact as usize).min(data.total_len().saturating_sub(text_start));''')],
 demo='''
fn main() {
    let r = reg(std_types());
    assert!(all(&r, 2, &[12, 97, 98, 99]).is_ok());
    assert!(all(&r, 2, &[12, 97, 98]).is_err());
}'''),
dict(id='count-u16', property='C01',
 needs='a sequence of more than 65535 elements',
 breaks='the element count is cut to sixteen bits',
 edits=[(SCI,'''                    &x.type_param,
                    number_of_elements,
                    data,''','''                    &x.type_param,
                    number_of_elements as u16 as u32,
                    data,''')],
 demo='''
fn main() {
    let r = reg(std_types());
    let d = vec![7u8; 65537].encode();
    match all(&r, 6, &d).unwrap().data {
        ParsedData::Sequence(SequenceData { data: Sequence::U8(x), .. }) => assert_eq!(x.len(), 65537),
        _ => panic!(),
    }
}'''),
dict(id='i256-unsigned', property='C01',
 needs='a negative 256-bit integer',
 breaks='negative I256 values come out as huge positive ones',
 edits=[('src/special_types.rs','''                    let out = Self::$get(slice_to_big256.as_ref());''','''                    let out = Self::$get(&[slice_to_big256.as_ref(), &[0]].concat());''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::I256)]);
    let d = all(&r, 0, &[0xff; 32]).unwrap();
    assert!(format!("{:?}", d.data).contains("-1"), "{:?}", d.data);
}'''),
]
