SCI='src/decoding_sci.rs'
EXT='src/decoding_sci_ext.rs'
UXT='src/unchecked_extrinsic.rs'
TR='src/traits.rs'
ST='src/storage_data.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CMP='src/compacts.rs'
IND='src/special_indicators.rs'
SPT='src/special_types.rs'
PROP='src/propagated.rs'
LIB='src/lib.rs'
ERA='src/additional_types.rs'
ERR='src/error.rs'
_ns={}
exec(open('/verif/tools/bugs/d.py').read(), _ns)
CALLTYPES, STORAGE, TX = _ns['CALLTYPES'], _ns['STORAGE'], _ns['TX']
BUGS = [
dict(id='variants-sorted', property='C01',
 needs='an enum whose variants are not listed in the order of their indices',
 breaks='variants are found by binary search, which misses some of them in such enums',
 edits=[(SCI,'''    let mut found_variant = None;
    for x in variants.iter() {
        if x.index == enum_index {
            found_variant = Some(x);
            break;
        }
    }''','''    let found_variant = variants
        .binary_search_by_key(&enum_index, |x| x.index)
        .ok()
        .map(|i| &variants[i]);''')],
 demo='''
fn main() {
    let r = reg(vec![enm("E", vec![v("B", 2, vec![]), v("A", 1, vec![]), v("Z", 0, vec![])])]);
    for i in 0..3 { assert!(all(&r, 0, &[i]).is_ok()); }
}'''),
dict(id='text-end-chars', property='C02',
 needs='a text with characters of more than one byte',
 breaks='the position after a text counts characters instead of bytes',
 edits=[(SCI,'''    let specialty = hint.string();
    let out = ParsedData::Text { text, specialty };
    *position = text_start + str_length;''','''    let specialty = hint.string();
    *position = text_start + text.chars().count();
    let out = ParsedData::Text { text, specialty };''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Str)]);
    assert!(all(&r, 0, &[8, 0xc3, 0xa4]).is_ok());
}'''),
dict(id='era-error-place', property='C03',
 needs='two bytes that are no era, as an era',
 breaks='the error points to the second byte',
 edits=[(SPT,'''                Err(_) => Err(ParserError::TypeFailure {
                    position: *position,
                    ty: "Era",''','''                Err(_) => Err(ParserError::TypeFailure {
                    position: *position + IMMORTAL_ERA_ENCODED_LEN,
                    ty: "Era",''')],
 demo='''
fn main() {
    let r = reg(vec![enm("sp_runtime::generic::era::Era", vec![])]);
    match all(&r, 0, &[0x11, 0x11]) {
        Err(ParserError::TypeFailure { position: 0, ty: "Era" }) => {}
        x => panic!("{x:?}"),
    }
}'''),
dict(id='compact-longest', property='C04',
 needs='a compact u128 of 2^120 or more',
 breaks='the longest compacts are not found',
 edits=[(CMP,'''pub const MAX_COMPACT_LEN: usize = 17;''','''pub const MAX_COMPACT_LEN: usize = 15;''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U128), compact(0)]);
    let d = Compact(u128::MAX).encode();
    assert!(all(&r, 1, &d).is_ok());
}'''),
dict(id='empty-call-cut', property='C05',
 needs='a length prefix of zero',
 breaks='an announced empty call makes the whole parse fail',
 edits=[(LIB,'''        let extensions_start = call_start + call_length;
''','''        if call_length == 0 {
            return Err(SignableError::CutSignable);
        }
        let extensions_start = call_start + call_length;
''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = marked(&[], &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    let out = parse(&m, &d, None).unwrap();
    assert!(out.call_result.is_err());
}'''),
dict(id='version-as-u32', property='C06',
 needs='spec versions beyond 32 bits in both the metadata and the extensions, different from each other',
 breaks='versions that do not fit in 32 bits are all taken as equal',
 edits=[(EXT,'''            if spec_version_found != version {''','''            if spec_version_found.parse::<u32>().ok() != version.parse::<u32>().ok() {''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    t[1] = prim(P::U64);
    let mut m = meta15(t, 12, &usual_exts());
    m.pallets[0].constants[0].value = ("chain".to_string(), (1u64 << 40) + 1).encode();
    let e = |x: u64| [vec![0], x.encode(), vec![1; 64]].concat();
    assert!(parse(&m, &marked(&call_bytes(), &e((1 << 40) + 1)), None).is_ok());
    assert!(parse(&m, &marked(&call_bytes(), &e((1 << 40) + 2)), None).is_err());
}'''),
dict(id='identifier-case', property='C07',
 needs='an extension whose identifier differs from a known one in case only',
 breaks='such an extension is labelled as the known one',
 edits=[(IND,'''            CHECK_NONCE => Self::CheckNonce,
            CHARGE_ASSET_TX_PAYMENT => Self::ChargeAssetTxPayment,
            CHARGE_TRANSACTION_PAYMENT => Self::ChargeTransactionPayment,
            _ => Self::None,
        }
    }

    /// `Hint` from [`Path`].''','''            a if a.eq_ignore_ascii_case(CHECK_NONCE) => Self::CheckNonce,
            CHARGE_ASSET_TX_PAYMENT => Self::ChargeAssetTxPayment,
            CHARGE_TRANSACTION_PAYMENT => Self::ChargeTransactionPayment,
            _ => Self::None,
        }
    }

    /// `Hint` from [`Path`].''')],
 demo=TX+'''
fn main() {
    let mut x = usual_exts();
    x.push(ext("Checknonce", 0, 7));
    let m = meta15(call_types(), 12, &x);
    let e = [vec![0, 5], 7u32.encode(), vec![1; 64]].concat();
    let out = parse(&m, &marked(&call_bytes(), &e), None).unwrap();
    assert!(!format!("{:?}", out.extensions).contains("Nonce"));
}'''),
dict(id='unmarked-far', property='C08',
 needs='unmarked parsing of a call of more than 65535 bytes',
 breaks='the extensions of such a transaction are looked for at the wrong place',
 edits=[(LIB,'''    let call = decode_as_call_unmarked::<B, E, M>(data, &mut position, ext_memory, metadata)?;
''','''    let call = decode_as_call_unmarked::<B, E, M>(data, &mut position, ext_memory, metadata)?;
    position &= 0xffff;
''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let call = [vec![0, 1], Compact(70000u32).encode(), vec![1; 70000]].concat();
    let d = [call, usual_ext_bytes(&[0], 7, [1; 32], [1; 32])].concat();
    assert!(parse_transaction_unmarked::<&[u8], (), M>(&d.as_ref(), &mut (), &m, None).is_ok());
}'''),
dict(id='nonce-suffix', property='C09',
 needs='a field whose name ends in nonce',
 breaks='such fields are labelled as nonce',
 edits=[(IND,'''                a if NONCE_ID_SET.contains(&a) => Self::FieldNonce,''','''                a if NONCE_ID_SET.contains(&a) || a.ends_with("_nonce") => Self::FieldNonce,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), comp("A", vec![f("max_nonce", 0, "u32")])]);
    assert!(!all(&r, 1, &[1, 0, 0, 0]).unwrap().show(0, false, &specs(), "n").contains("Nonce"));
}'''),
dict(id='asset-tip-tuple', property='C09',
 needs='an asset payment extension whose type is a tuple of several elements',
 breaks='the asset tip label does not survive the tuple',
 edits=[(SCI,'''                    propagated.reject_compact()?;
                    propagated.forget_hint();''','''                    propagated.reject_compact()?;
                    propagated.checker.specialty_set.hint = Hint::None;''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    t.push(tup(&[1, 0]));
    let mut x = usual_exts();
    x.push(ext("ChargeAssetTxPayment", 14, 7));
    let m = meta15(t, 12, &x);
    let e = [vec![0], 9u32.encode(), vec![3], 7u32.encode(), vec![1; 64]].concat();
    let out = parse(&m, &marked(&call_bytes(), &e), None).unwrap();
    assert!(format!("{:?}", out.extensions).contains("TipAsset"));
}'''),
dict(id='named-pallet-field', property='C10',
 needs='a call enum whose pallet variant has a named field',
 breaks='such a call is not recognised',
 edits=[(IND,'''                            if pallet_variant.fields.len() == 1 {
                                let item_ty_id''','''                            if pallet_variant.fields.len() == 1
                                && pallet_variant.fields[0].name.is_none()
                            {
                                let item_ty_id''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    t[12] = enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("inner", 13, "")])]);
    let m = meta15(t, 12, &usual_exts());
    let d = marked(&call_bytes(), &usual_ext_bytes(&[0], 7, [1; 32], [1; 32]));
    assert!(parse(&m, &d, None).unwrap().call_result.is_ok());
}'''),
dict(id='signature-extra-field', property='C11',
 needs='a MultiSignature variant that has a second field after the signature',
 breaks='the second field is not decoded',
 edits=[(IND,'''                            if signature_variant.fields.len() == 1 {''','''                            if !signature_variant.fields.is_empty() {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), arr(64, 0), enm("sp_runtime::MultiSignature", vec![v("Ed25519", 0, vec![f("", 1, "ed25519::Signature"), f("", 0, "u8")])])]);
    let d = vec![0; 66];
    assert!(all(&r, 2, &d).is_ok());
}'''),
dict(id='count-preallocated', property='C14',
 needs='a sequence that announces billions of elements in a few bytes',
 breaks='memory for all announced elements is taken before the first is read, and the process aborts',
 edits=[(SCI,'''            let mut out: Vec<ParsedData> = Vec::new();
            for _i in''','''            let mut out: Vec<ParsedData> = Vec::with_capacity(number_of_elements as usize);
            for _i in''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0)]);
    assert!(all(&r, 1, &[3, 255, 255, 255, 255]).is_err());
}'''),
dict(id='pallet-unresolved-panic', property='C14',
 needs='a call enum whose pallet variant points to a type that is not in the registry',
 breaks='the parser panics instead of returning an error',
 edits=[(IND,'''                                match registry.resolve_ty(item_ty_id, ext_memory) {
                                    Ok(variants_ty) => {''','''                                match Ok::<_, crate::error::RegistryError<E>>(
                                    registry
                                        .resolve_ty(item_ty_id, ext_memory)
                                        .map_err(|_| item_ty_id)
                                        .expect("variants describe types of the same registry"),
                                ) {
                                    Ok(variants_ty) => {''')],
 demo='''
fn main() {
    let r = reg(vec![enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 9, "")])])]);
    assert!(all(&r, 0, &[0, 1]).is_err());
}'''),
dict(id='prefix-only-map', property='C15',
 needs='a map entry whose key type takes no bytes, with a key that is only the prefix',
 breaks='such a key is refused as too short',
 edits=[(ST,'''    if position_key_after_prefix > key_input.total_len() {
        return Err(StorageError::KeyShorterThanPrefix);
    }
''','''    if position_key_after_prefix > key_input.total_len() {
        return Err(StorageError::KeyShorterThanPrefix);
    }
    if let StorageEntryType::Map { .. } = entry_metadata.ty {
        if position_key_after_prefix == key_input.total_len() {
            return Err(StorageError::KeyShorterThanPrefix);
        }
    }
''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(vec![prim(P::U8), tup(&[])]);
    assert!(storage(&r, &entry(vec![StorageHasher::Identity], 1, 0), &[0; 32], &[1]).is_ok());
}'''),
dict(id='hash-of-nothing', property='C15',
 needs='a key part with a concatenating hash whose decoded part has no bytes',
 breaks='the hash of an empty part is not checked',
 edits=[(ST,'''            if hash_part
                != $fn_into(''','''            if position_decoder_starts != *position && hash_part
                != $fn_into(''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(vec![prim(P::U8), tup(&[])]);
    let e = entry(vec![StorageHasher::Twox64Concat], 1, 0);
    assert!(storage(&r, &e, &[0; 40], &[1]).is_err());
}'''),
dict(id='unsigned-any-version', property='C16',
 needs='an unsigned extrinsic whose version is not that of the metadata',
 breaks='the version of unsigned extrinsics is not checked when it is lower',
 edits=[(UXT,'''    if version_byte & VERSION_MASK != version {''','''    if version_byte & VERSION_MASK != version && version_byte >= version {''')],
 demo=CALLTYPES+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let d = vec![16, 3, 0, 0, 5];
    assert!(decode_as_unchecked_extrinsic::<&[u8], (), M>(&d.as_ref(), &mut (), &m).is_err());
}'''),
dict(id='version-leftover', property='C17',
 needs='V15 metadata whose Version constant has bytes after the decoded value',
 breaks='leftover bytes of the constant are ignored',
 edits=[(TR,'''        let (value, ty) = version_constant_data_and_ty_v15(&self.pallets)?;
        match decode_all_as_type::<&[u8], (), RuntimeMetadataV15>(
            &ty,
            &value.as_ref(),
            &mut (),
            &self.types,
        ) {''','''        let (value, ty) = version_constant_data_and_ty_v15(&self.pallets)?;
        match crate::decode_as_type_at_position::<&[u8], (), RuntimeMetadataV15>(
            &ty,
            &value.as_ref(),
            &mut (),
            &self.types,
            &mut 0,
        ) {''')],
 demo='''
fn main() {
    let mut m = meta15(std_types(), 12, &usual_exts());
    m.pallets[0].constants[0].value.push(0);
    assert!(<M as AsMetadata<()>>::spec_name_version(&m).is_err());
}'''),
dict(id='system-prefix', property='C17',
 needs='a pallet whose name starts with System, listed before System',
 breaks='that pallet is searched for the version instead',
 edits=[(TR,'''                    if pallet.name == "System" {''','''                    if pallet.name.starts_with("System") {''')],
 demo='''
fn main() {
    let mut m = meta15(std_types(), 12, &usual_exts());
    let mut p = m.pallets[0].clone();
    p.name = "SystemExtra".to_string();
    p.constants.clear();
    m.pallets.insert(0, p);
    assert!(<M as AsMetadata<()>>::spec_name_version(&m).is_ok());
}'''),
dict(id='tuple-type-fault', property='C18',
 needs='an external memory that fails when the type of a tuple element is read',
 breaks='the failure is reported as an unresolved type',
 edits=[(SCI,'''                    let ty = registry.resolve_ty(id, ext_memory)?;
                    let tuple_data_element''','''                    let ty = registry
                        .resolve_ty(id, ext_memory)
                        .map_err(|_| RegistryInternalError::TypeNotResolved { id })?;
                    let tuple_data_element''')],
 demo='''
fn main() {
    let r = ExtReg(Rc::new(reg(vec![prim(P::U8), tup(&[0, 0])])));
    for k in 1..12 {
        let mut mem = Mem { n: 0, fail_at: k };
        match decode_all_as_type::<ExtBuf, Mem, ExtMeta>(&s(1), &extbuf(&[16, 5]), &mut mem, &r) {
            Err(ParserError::Registry(RegistryError::Internal(e))) => panic!("{e:?}"),
            _ => {}
        }
    }
}'''),
dict(id='pallet-outer-info', property='C19',
 needs='a call enum of a pallet with docs or a path of its own',
 breaks='the info of the outer call enum is given for the pallet',
 edits=[(IND,'''                                                let pallet_info = Info::from_ty(&variants_ty);''','''                                                let pallet_info = Info::from_ty(ty);''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), enm("pallet::Call", vec![v("one", 0, vec![f("x", 0, "")])]), enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 1, "")])])]);
    match all(&r, 2, &[0, 0, 1]).unwrap().data {
        ParsedData::Call(Call(x)) => assert_eq!(x.pallet_info.path.segments[0], "pallet"),
        x => panic!("{x:?}"),
    }
}'''),
dict(id='info-dedupe', property='C19',
 needs='two different types with the same path and docs, one around the other as a compact or husked wrapper',
 breaks='the second of two equal descriptions is dropped',
 edits=[(PROP,'''        if !info_update.is_empty() {
            self.info.push''','''        if !info_update.is_empty() && self.info.last() != Some(info_update) {
            self.info.push''')],
 demo='''
fn main() {
    let r = reg(vec![docs(prim(P::U32), &["same"]), docs(compact(0), &["same"])]);
    assert_eq!(all(&r, 1, &[4]).unwrap().info.len(), 2);
}'''),
dict(id='text-control', property='C20',
 needs='a byte vector that is valid UTF-8 with a NUL character in it',
 breaks='such byte vectors are shown as hex',
 edits=[(CARDS,'''                        let text = match String::from_utf8(vec.to_vec()) {
                            Ok(a) => Some(a),''','''                        let text = match String::from_utf8(vec.to_vec()) {
                            Ok(a) if a.contains('\\0') => None,
                            Ok(a) => Some(a),''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0)]);
    let x = all(&r, 1, &[8, 65, 0]).unwrap().show(0, false, &specs(), "n");
    assert!(x.starts_with("Text"), "{x}");
}'''),
dict(id='pallet-name-prefix', property='C20',
 needs='a balance in a call of a pallet whose name starts like Balances',
 breaks='its balances are shown with units',
 edits=[(CARDS,'''        PALLETS_BALANCE_VALID.contains(&self.pallet_name.as_str())''','''        PALLETS_BALANCE_VALID
            .iter()
            .any(|x| self.pallet_name.starts_with(x))''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U128), enm("pallet::Call", vec![v("one", 0, vec![f("x", 0, "Balance")])]), enm("runtime::RuntimeCall", vec![v("BalancesExt", 0, vec![f("", 1, "")])])]);
    let x = all(&r, 2, &[vec![0, 0], vec![1; 16]].concat()).unwrap().show(0, false, &specs(), "n");
    assert!(x.contains("Balance Raw"), "{x}");
}'''),
dict(id='unitless-prefix', property='C21',
 needs='an empty unit name',
 breaks='the magnitude prefix is left out when the unit is empty',
 edits=[(BAL,'''        units: format!("{unit_prefix}{unit}"),''','''        units: match unit {
            "" => String::new(),
            _ => format!("{unit_prefix}{unit}"),
        },''')],
 demo='''
use substrate_parser::printing_balance::AsBalance;
fn main() {
    assert_eq!(<u128>::convert_balance_pretty(1, 12, "").units, "p");
}'''),
dict(id='era-encode-min', property='C22',
 needs='encoding an era of the shortest period, four blocks',
 breaks='the shortest period is written as eight',
 edits=[(ERA,'''.clamp(1, 15)''','''.clamp(2, 15)''')],
 demo='''
fn main() {
    use substrate_parser::additional_types::Era;
    let e = Era::Mortal(4, 1);
    assert_eq!(Era::decode(&mut &e.encode()[..]).unwrap(), e);
}'''),
dict(id='bit-order-suffix', property='C13',
 needs='a bit order type whose name only ends with a known order name',
 breaks='it is taken for the known order',
 edits=[(SCI,'''            Some(x) => match x.as_str() {
                LSB0 => Ok''','''            Some(x) => match x.trim_start_matches("Local") {
                LSB0 => Ok''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("bitvec::order::LocalLsb0", vec![]), bits(0, 1)]);
    assert!(all(&r, 2, &[16, 5]).is_err());
}'''),
dict(id='bits-long', property='C13',
 needs='a bit sequence of 32768 bits or more',
 breaks='the high bit of a sixteen-bit count is dropped for one-byte stores',
 edits=[(SCI,'''        let slice_length = number_of_elements * bytes_per_element;''','''        let slice_length = match number_of_elements {
            n @ 4096.. if n == byte_length => n - n % 4096,
            n => n,
        } * bytes_per_element;''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("bitvec::order::Lsb0", vec![]), bits(0, 1)]);
    let mut d = vec![0x22, 0x00, 0x02, 0x00]; // 32776 bits
    d.extend(vec![7u8; 4097]);
    assert!(all(&r, 2, &d).is_ok());
}'''),
]
