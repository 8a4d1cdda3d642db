SCI='src/decoding_sci.rs'
EXT='src/decoding_sci_ext.rs'
UXT='src/unchecked_extrinsic.rs'
TR='src/traits.rs'
ST='src/storage_data.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CMP='src/compacts.rs'
IND='src/special_indicators.rs'
SPT='src/special_types.rs'
PROP='src/propagated.rs'
LIB='src/lib.rs'
ERA='src/additional_types.rs'
_ns={}
exec(open('/verif/tools/bugs/c.py').read(), _ns)
CALLTYPES, STORAGE = _ns['CALLTYPES'], _ns['STORAGE']
TX = CALLTYPES + '''
fn call_bytes() -> Vec<u8> { vec![0, 0, 5] }
fn parse(m: &M, data: &[u8], gh: Option<[u8; 32]>) -> Result<TransactionParsed<(), M>, SignableError<(), M>> {
    parse_transaction::<&[u8], (), M>(&data, &mut (), m, gh.map(H256))
}
'''
BUGS = [
dict(id='variant-by-place', property='C01',
 needs='an enum whose variants are not numbered from zero without gaps, and an index that no variant has but that is below the number of variants',
 breaks='an unknown variant index selects a variant by its place in the list',
 edits=[(SCI,'''        None => Err(ParserError::UnexpectedEnumVariant { position }),''','''        None => variants
            .get(enum_index as usize)
            .ok_or(ParserError::UnexpectedEnumVariant { position }),''')],
 demo='''
fn main() {
    let r = reg(vec![enm("E", vec![v("A", 1, vec![]), v("B", 2, vec![])])]);
    assert!(all(&r, 0, &[1]).is_ok());
    assert!(all(&r, 0, &[0]).is_err());
}'''),
dict(id='array-len-byte', property='C12',
 needs='an array of more than 255 elements',
 breaks='only the low byte of the array length counts',
 edits=[(SCI,'''                &x.type_param,
                x.len,
                data,''','''                &x.type_param,
                (x.len as u8).into(),
                data,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), arr(260, 0)]);
    assert!(all(&r, 1, &[7; 260]).is_ok());
    assert!(all(&r, 1, &[7; 4]).is_err());
}'''),
dict(id='unread-blob', property='C02',
 needs='a type that takes no bytes at all and a blob that is not empty',
 breaks='leftover bytes are not noticed when nothing was read',
 edits=[(LIB,'''    if position != data.total_len() {
        Err(ParserError::SomeDataNotUsedBlob { from: position })''','''    if position > 0 && position != data.total_len() {
        Err(ParserError::SomeDataNotUsedBlob { from: position })''')],
 demo='''
fn main() {
    let r = reg(vec![tup(&[]), comp("Empty", vec![f("a", 0, "")])]);
    assert!(all(&r, 1, &[]).is_ok());
    assert!(all(&r, 1, &[1]).is_err());
}'''),
dict(id='compact-at-end', property='C03',
 needs='data that ends exactly where a compact should start',
 breaks='the missing compact is reported as an out-of-range position',
 edits=[(CMP,'''    if data.total_len() < position {''','''    if data.total_len() <= position {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0), tup(&[0, 1])]);
    match all(&r, 2, &[5]) {
        Err(ParserError::NoCompact { position: 1 }) => {}
        other => panic!("{other:?}"),
    }
}'''),
dict(id='compact-empty-enum', property='C04',
 needs='a compact of an enum without variants',
 breaks='a compact of an empty enum is accepted',
 edits=[(SCI,'''                propagated.reject_compact()?;
                if !x.variants.is_empty() {
                    let variant_data''','''                if !x.variants.is_empty() {
                    propagated.reject_compact()?;
                    let variant_data''')],
 demo='''
fn main() {
    let r = reg(vec![enm("Never", vec![]), compact(0)]);
    assert!(all(&r, 0, &[]).is_ok());
    assert!(all(&r, 1, &[]).is_err());
}'''),
dict(id='compact-lone-tuple', property='C04',
 needs='a compact around a tuple with a single element',
 breaks='such a compact is refused',
 edits=[(SCI,'''                if x.fields.len() > 1 {
                    propagated.reject_compact()?;
                    propagated.forget_hint();''','''                if !x.fields.is_empty() {
                    propagated.reject_compact()?;
                }
                if x.fields.len() > 1 {
                    propagated.forget_hint();''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), tup(&[0]), compact(1)]);
    assert!(all(&r, 2, &[4]).is_ok());
}'''),
dict(id='one-byte-over', property='C05',
 needs='an announced call length exactly one byte longer than the call',
 breaks='one unused call byte goes unnoticed',
 edits=[(SCI,'''    if position != marked_data.extensions_start() {
        Err''','''    if position + 1 < marked_data.extensions_start() {
        Err''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let e = usual_ext_bytes(&[0], 7, [1; 32], [1; 32]);
    let good = parse(&m, &marked(&call_bytes(), &e), None).unwrap();
    assert!(good.call_result.is_ok());
    let mut c = call_bytes();
    c.push(0);
    let t = parse(&m, &marked(&c, &e), None).unwrap();
    assert!(t.call_result.is_err());
}'''),
dict(id='call-length-word', property='C05',
 needs='a call of more than 65535 bytes',
 breaks='the announced call length is cut to 16 bits when the call is limited',
 edits=[(LIB,'''            Ok(_) => Ok(Self {
                data,
                call_start,
                extensions_start,''','''            Ok(_) => Ok(Self {
                data,
                call_start,
                extensions_start: call_start + usize::from(call_length as u16),''')],
 demo=TX+'''
fn main() {
    let m = meta15(call_types(), 12, &usual_exts());
    let e = usual_ext_bytes(&[0], 7, [1; 32], [1; 32]);
    let many = vec![3u8; 66000];
    let c = [vec![0, 1], many.encode()].concat();
    let t = parse(&m, &marked(&c, &e), None).unwrap();
    assert!(t.call_result.is_ok());
}'''),
dict(id='last-block-hash', property='C06',
 needs='two block hashes among the extensions',
 breaks='a second block hash replaces the first and is not refused',
 edits=[(EXT,'''        if self.block_hash.is_some() {
            Err''','''        if self.block_hash.is_some() && self.era.is_none() {
            Err''')],
 demo=TX+'''
fn main() {
    let mut x = usual_exts();
    x.push(ext("CheckMortality", 7, 4));
    let m = meta15(call_types(), 12, &x);
    let e = [usual_ext_bytes(&[0], 7, [1; 32], [1; 32]), vec![1; 32]].concat();
    match parse(&m, &marked(&call_bytes(), &e), None) {
        Err(SignableError::ExtensionsList(ExtensionsError::BlockHashTwice)) => {}
        other => panic!("{other:?}"),
    }
}'''),
dict(id='era-in-tuple', property='C06',
 needs='a second era wrapped in an unnamed single-field struct next to a bare one',
 breaks='values inside unnamed single-field structs are not checked',
 edits=[(EXT,'''            if field_data.len() == 1 {''','''            if field_data.len() == 1 && field_data[0].type_name.is_some() {''')],
 demo=TX+'''
fn main() {
    let mut t = call_types();
    let n = t.len() as u32;
    t.push(comp("frame_system::CheckMortality", vec![f("", 5, "")]));
    let m = meta15(t, 12, &[ext("CheckSpecVersion", 7, 1), ext("CheckGenesis", 7, 4), ext("CheckMortality", n, 4)]);
    let e = usual_ext_bytes(&[0], 7, [1; 32], [2; 32]);
    assert!(parse(&m, &marked(&call_bytes(), &e), None).is_err());
}'''),
dict(id='additional-of-unit', property='C07',
 needs='an extension that has a value of its own as well as an additional-signed value, the latter labelled by the identifier',
 breaks='the additional value gets its label only when the extension itself is of another kind',
 edits=[(EXT,'''            &Ty::Symbol(&signed_extensions_metadata.additional_signed),
            data,
            ext_memory,
            position,
            &registry,
            Propagated::from_ext_meta(signed_extensions_metadata),''','''            &Ty::Symbol(&signed_extensions_metadata.additional_signed),
            data,
            ext_memory,
            position,
            &registry,
            if signed_extensions_metadata.ty == signed_extensions_metadata.additional_signed {
                Propagated::new()
            } else {
                Propagated::from_ext_meta(signed_extensions_metadata)
            },''')],
 demo=TX+'''
fn main() {
    let mut x = usual_exts();
    x.push(ext("CheckNonce", 1, 1));
    let m = meta15(call_types(), 12, &x);
    let e = [vec![0], 3u32.encode(), 7u32.encode(), vec![1; 64], 9u32.encode()].concat();
    let t = parse(&m, &marked(&call_bytes(), &e), None).unwrap();
    assert_eq!(t.extensions.last().unwrap().data,
        ParsedData::PrimitiveU32 { value: 9, specialty: SpecialtyUnsignedInteger::Nonce });
}'''),
dict(id='tip-survives', property='C09',
 needs='a payment extension type with more than one field',
 breaks='the tip label is kept inside structs with several fields',
 edits=[(PROP,'''        if let Hint::ChargeAssetTxPayment = self.hint {
        } else {''','''        if let Hint::ChargeAssetTxPayment | Hint::ChargeTransactionPayment = self.hint {
        } else {''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U128),
        comp("pallet::ChargeTransactionPayment", vec![f("a", 0, ""), f("b", 0, "")]),
        tup(&[1]),
    ]);
    let x = all(&r, 2, &[1; 32]).unwrap();
    assert!(!format!("{:?}", x).contains("Tip"));
}'''),
dict(id='element-label-order', property='C09',
 needs='a sequence whose element type is a chain of single-field structs with two different telling field names',
 breaks='the innermost field name decides the label of elements',
 edits=[(SCI,'''                        if let Hint::None = checker.specialty_set.hint {
                            checker.specialty_set.hint = Hint::from_field(&x.fields[0])
                        }''','''                        match Hint::from_field(&x.fields[0]) {
                            Hint::None => (),
                            hint => checker.specialty_set.hint = hint,
                        }''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U32),
        comp("Inner", vec![f("tx_version", 0, "")]),
        comp("Outer", vec![f("nonce", 1, "")]),
        seq(2),
    ]);
    let x = all(&r, 3, &[4, 1, 0, 0, 0]).unwrap();
    assert!(format!("{:?}", x).contains("Nonce"));
}'''),
dict(id='compact-call', property='C10',
 needs='a compact type around a call enum',
 breaks='a compact of a call is accepted',
 edits=[(SCI,'''            propagated.reject_compact()?;
            let variant_data =
                decode_variant::<B, E, M>(&variants, data, ext_memory, position, registry)?;
            let pallet_specific_data''','''            let variant_data =
                decode_variant::<B, E, M>(&variants, data, ext_memory, position, registry)?;
            let pallet_specific_data''')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    t.push(compact(12));
    let n = t.len() as u32 - 1;
    let r = reg(t);
    assert!(all(&r, 12, &[0, 0, 5]).is_ok());
    assert!(all(&r, n, &[0, 0, 5]).is_err());
}'''),
dict(id='empty-pallet', property='C10',
 needs='a pallet whose call enum has no calls',
 breaks='such a pallet decodes as an ordinary enum',
 edits=[(IND,'''                                                variants_ty.type_def
                                            {
                                                let pallet_info''','''                                                variants_ty.type_def
                                            {
                                                if var.variants.is_empty() {
                                                    return Self::None;
                                                }
                                                let pallet_info''')],
 demo='''
fn main() {
    let r = reg(vec![
        enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 1, "")])]),
        enm("pallet::Call", vec![]),
    ]);
    assert!(all(&r, 0, &[0]).is_err());
}'''),
dict(id='signature-of-words', property='C11',
 needs='a MultiSignature variant named like a signature over an array of 64 elements that are not bytes',
 breaks='any array of 64 elements is taken for a signature',
 edits=[(IND,'''                        if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                            signature_array_ty.len''','''                        if let TypeDef::Primitive(
                            TypeDefPrimitive::U8 | TypeDefPrimitive::U16 | TypeDefPrimitive::U32,
                        ) = element_ty.type_def
                        {
                            signature_array_ty.len''')],
 demo='''
fn main() {
    let r = reg(vec![
        enm("sp_runtime::MultiSignature", vec![v("Sr25519", 0, vec![f("", 1, "sr25519::Signature")])]),
        comp("Words", vec![f("", 2, "")]),
        arr(64, 3),
        prim(P::U16),
    ]);
    assert!(all(&r, 0, &[0; 129]).is_ok());
}'''),
dict(id='first-empty-bytes', property='C12',
 needs='a sequence of byte vectors whose first element is empty',
 breaks='a sequence that starts with an empty vector of anything is taken for byte vectors',
 edits=[(SPT,'''        })) => <Vec<u8>>::husk_set(set),
        _ => None,''','''        })) => <Vec<u8>>::husk_set(set),
        Some(ParsedData::SequenceRaw(a)) if a.data.is_empty() && set.len() > 1 => {
            <Vec<u8>>::husk_set(set)
        }
        _ => None,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0), seq(1)]);
    let x = all(&r, 2, &[8, 0, 4, 1]).unwrap();
    assert!(matches!(x.data, ParsedData::SequenceRaw(_)));
}'''),
dict(id='bit-length-word', property='C13',
 needs='a bit sequence of 65536 bits or more',
 breaks='long bit sequences are measured modulo 65536 bits',
 edits=[(SCI,'''        let bit_length = found_compact.compact as usize;
''','''        let bit_length = usize::from(found_compact.compact as u16);
''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("bitvec::order::Lsb0", vec![]), bits(0, 1)]);
    let data = [Compact(65536u32 + 8).encode(), vec![0x55; 8193]].concat();
    assert!(all(&r, 2, &data).is_ok());
}'''),
dict(id='struct-drops-cycle', property='C14',
 needs='a type cycle that passes a struct of more than one field before any data is read',
 breaks='the cycle is followed until the stack overflows',
 edits=[(PROP,'''        if let Hint::ChargeAssetTxPayment = self.hint {
        } else {
            self.hint = Hint::None;
        }
    }
''','''        if let Hint::ChargeAssetTxPayment = self.hint {
        } else {
            self.hint = Hint::None;
        }
    }

'''),(SCI,'''        checker.forget_hint();
    }
    let mut out: Vec<FieldData> = Vec::new();''','''        checker.forget_hint();
        checker.drop_cycle_check();
    }
    let mut out: Vec<FieldData> = Vec::new();''')],
 demo='''
fn main() {
    let r = reg(vec![comp("A", vec![f("a", 1, ""), f("b", 2, "")]), comp("B", vec![f("x", 0, "")]), prim(P::U8)]);
    assert!(all(&r, 0, &[1, 2, 3]).is_err());
}'''),
dict(id='plain-value-rest', property='C15',
 needs='a plain storage entry with bytes after its value',
 breaks='unused bytes after the value of a plain entry are accepted',
 edits=[(ST,'''            let key = KeyData::Plain;
            let value = decode_all_as_type::<B, E, M>(value_ty, value_input, ext_memory, registry)
                .map_err(StorageError::ParsingValue)?;''','''            let key = KeyData::Plain;
            let value = decode_with_type::<B, E, M>(
                &Ty::Symbol(value_ty),
                value_input,
                ext_memory,
                &mut 0,
                registry,
                Propagated::new(),
            )
            .map_err(StorageError::ParsingValue)?;''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(vec![prim(P::U8)]);
    let mut e = entry(vec![], 0, 0);
    e.ty = StorageEntryType::Plain(s(0));
    assert!(storage(&r, &e, &[1; 32], &[1]).is_ok());
    assert!(storage(&r, &e, &[1; 32], &[1, 2]).is_err());
}'''),
dict(id='tuple-key-id', property='C15',
 needs='a map with several hashers of which one is opaque',
 breaks='the key type recorded with a 256-bit opaque hash among several is the one of the whole key',
 edits=[(ST,'''                            StorageHasher::Twox256 => content.push(cut_twox_256::<B, E>(
                                &tuple_elements[index],''','''                            StorageHasher::Twox256 => content.push(cut_twox_256::<B, E>(
                                &tuple_elements[0],''')],
 demo=STORAGE+'''
fn main() {
    let r = reg(vec![prim(P::U8), prim(P::U16), tup(&[0, 1])]);
    let e = entry(vec![StorageHasher::Identity, StorageHasher::Twox256], 2, 0);
    let x = storage(&r, &e, &[7; 65], &[1]).unwrap();
    let KeyData::TupleHash { content, .. } = x.key else { panic!() };
    let KeyPart::Hash(h) = &content[1] else { panic!() };
    assert_eq!(h.type_id, 1);
}'''.replace('fn main()', 'use substrate_parser::storage_data::{KeyData, KeyPart};\nfn main()')),
dict(id='version-high-bit', property='C16',
 needs='metadata whose extrinsic version is 128 or more',
 breaks='only the low bits of the metadata version are compared',
 edits=[(UXT,'''    if version_byte & VERSION_MASK != version {''','''    if (version_byte ^ version) & VERSION_MASK != 0 {''')],
 demo=CALLTYPES+'''
fn main() {
    let mut m = meta15(call_types(), 12, &usual_exts());
    let data = [Compact(4u32).encode(), vec![4, 0, 0, 5]].concat();
    assert!(decode_as_unchecked_extrinsic::<&[u8], (), M>(&data.as_ref(), &mut (), &m).is_ok());
    m.extrinsic.version = 132;
    assert!(decode_as_unchecked_extrinsic::<&[u8], (), M>(&data.as_ref(), &mut (), &m).is_err());
}'''),
dict(id='first-parameter', property='C17',
 needs='V14 metadata whose extrinsic type names a parameter twice',
 breaks='the first of two parameters of the same name counts',
 edits=[(TR,'''            CALL_INDICATOR => found_call = param.ty,''','''            CALL_INDICATOR => found_call = found_call.or(param.ty),''')],
 demo=CALLTYPES+'''
fn main() {
    let mut t = call_types();
    let n = t.len() as u32;
    t.push(params(comp("sp_runtime::generic::unchecked_extrinsic::UncheckedExtrinsic", vec![f("", 6, "")]),
        &[("Address", 4), ("Call", 1), ("Call", 12), ("Signature", 4), ("Extra", 7)]));
    let m = meta14(t, n, &usual_exts());
    assert_eq!(<M14 as AsMetadata<()>>::call_ty(&m).unwrap(), s(12));
}'''),
dict(id='system-anywhere', property='C17',
 needs='two pallets named System of which the first has no Version',
 breaks='the search goes on to a second System pallet',
 edits=[(TR,'''                                runtime_version_data_and_ty = Some((constant.value.to_vec(), constant.ty))
                            }
                        }
                        break;''','''                                runtime_version_data_and_ty = Some((constant.value.to_vec(), constant.ty))
                            }
                        }
                        if runtime_version_data_and_ty.is_some() {
                            break;
                        }''')],
 demo=CALLTYPES+'''
fn main() {
    let mut m = meta15(call_types(), 12, &usual_exts());
    let second = m.pallets[0].clone();
    m.pallets.push(second);
    m.pallets[0].constants.clear();
    assert!(<M as AsMetadata<()>>::spec_name_version(&m).is_err());
}'''),
dict(id='text-read-fault', property='C18',
 needs='an external memory failure exactly when the bytes of a text are read',
 breaks='the failure is reported as text that is not valid',
 edits=[(SCI,'''    let into_string = data.read_slice(ext_memory, text_start, str_length)?;
    let text = match''','''    if text_start + str_length > data.total_len() {
        data.read_slice(ext_memory, text_start, str_length)?;
    }
    let into_string = data
        .read_slice(ext_memory, text_start, str_length)
        .map_err(|_| ParserError::TypeFailure {
            position: *position,
            ty: "str",
        })?;
    let text = match''')],
 demo='''
fn main() {
    let m = meta15(std_types(), 1, &usual_exts());
    let x = extmeta(&m);
    let d = extbuf(&[8, 65, 66]);
    let mut n = 0;
    for k in 1..10 {
        let mut mem = Mem { n: 0, fail_at: k };
        match decode_all_as_type::<ExtBuf, Mem, ExtMeta>(&s(2), &d, &mut mem, &x.types()) {
            Ok(_) => break,
            Err(e) => { n += 1; assert!(format!("{e:?}").contains("External"), "{e:?}") }
        }
    }
    assert!(n >= 3);
}'''),
dict(id='element-info-inward', property='C19',
 needs='a sequence whose element type passes two types with docs or paths while it is unwrapped',
 breaks='the element information is listed innermost first',
 edits=[(SCI,'''        if !info_ty.is_empty() {
            info.push(info_ty)
        }

        if let SpecialtyTypeHinted::None''','''        if !info_ty.is_empty() {
            info.insert(0, info_ty)
        }

        if let SpecialtyTypeHinted::None''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U32),
        comp("m::Inner", vec![f("", 0, "")]),
        comp("m::Outer", vec![f("", 1, "")]),
        seq(2),
    ]);
    let x = all(&r, 3, &[4, 1, 0, 0, 0]).unwrap();
    let ParsedData::Sequence(q) = x.data else { panic!() };
    assert_eq!(q.element_info[0].path.segments[1], "Outer");
}'''),
dict(id='nested-call-docs', property='C19',
 needs='documentation on a variant of a call enum without fields',
 breaks='the docs of calls without fields are dropped',
 edits=[(SCI,'''                variant_docs: variant_data.variant_docs.to_owned(),
                pallet_name,''','''                variant_docs: if variant_data.fields.is_empty() {
                    String::new()
                } else {
                    variant_data.variant_docs.to_owned()
                },
                pallet_name,''')],
 demo='''
fn main() {
    let r = reg(vec![
        enm("runtime::RuntimeCall", vec![v("Pallet", 0, vec![f("", 1, "")])]),
        enm("pallet::Call", vec![vdocs(v("go", 0, vec![]), &["goes"])]),
    ]);
    let x = all(&r, 0, &[0, 0]).unwrap();
    let ParsedData::Call(c) = x.data else { panic!() };
    assert_eq!(c.0.variant_docs, "goes");
}'''),
dict(id='field-number-off', property='C20',
 needs='a struct that mixes named and unnamed fields',
 breaks='unnamed fields after named ones are numbered among the unnamed only',
 edits=[(CARDS,'''    for (i, field_data) in fields.iter().enumerate() {
        let parser_card = match field_data.field_name {
            Some(ref a) => ParserCard::FieldName(a.to_owned()),
            None => ParserCard::FieldNumber(i + 1),
        };''','''    let mut i = 0;
    for field_data in fields.iter() {
        let parser_card = match field_data.field_name {
            Some(ref a) => ParserCard::FieldName(a.to_owned()),
            None => {
                i += 1;
                ParserCard::FieldNumber(i)
            }
        };''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("Mixed", vec![f("a", 0, ""), f("", 0, "")])]);
    let x = all(&r, 1, &[1, 2]).unwrap();
    assert!(x.show(0, false, &specs(), "n").contains("Field Number: 2"));
}'''),
dict(id='identicon-prefix', property='C20',
 needs='an account id displayed with a network prefix of 64 or more',
 breaks='the picture of an id shown for such networks is drawn from the address and not from the id',
 edits=[(CARDS,'''                    let identicon = generate_png_scaled_default(value.0.as_ref());''','''                    let identicon = if base58prefix < 64 {
                        generate_png_scaled_default(value.0.as_ref())
                    } else {
                        generate_png_scaled_default(base58.as_bytes())
                    };''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), arr(32, 0), comp("sp_core::crypto::AccountId32", vec![f("", 1, "")])]);
    let x = all(&r, 2, &[9; 32]).unwrap();
    let pic = |p: u16| {
        let k = ShortSpecs { base58prefix: p, decimals: 12, unit: "U".to_string() };
        let ParserCard::Id(i) = x.card(0, false, &k, "n")[0].parser_card.clone() else { panic!() };
        i.identicon
    };
    assert_eq!(pic(42), pic(70));
}'''),
dict(id='balance-in-tuple', property='C20',
 needs='a balance inside a tuple inside a call of a pallet whose balances are shown with units',
 breaks='balances in tuples are shown raw',
 edits=[(CARDS,'''                        out.extend_from_slice(&extended_data.card(
                            indent + 1,
                            display_balance,''','''                        out.extend_from_slice(&extended_data.card(
                            indent + 1,
                            display_balance && indent == 0,''')],
 demo='''
fn main() {
    let r = reg(vec![
        enm("runtime::RuntimeCall", vec![v("Balances", 0, vec![f("", 1, "")])]),
        enm("pallet::Call", vec![v("pay", 0, vec![f("x", 2, "")])]),
        tup(&[3, 3]),
        comp("Amount", vec![f("", 4, "Balance")]),
        prim(P::U32),
    ]);
    let x = all(&r, 0, &[0, 0, 1, 0, 0, 0, 2, 0, 0, 0]).unwrap();
    assert!(!x.show(0, false, &specs(), "n").contains("Balance Raw"));
}'''),
dict(id='era-quantize', property='C22',
 needs='a mortal era with a period of 8192 blocks or more and a phase that is not zero',
 breaks='the phase of long eras is taken in wrong steps when written',
 edits=[(ERA,'''                let quantize_factor = (*period >> 12).max(1);''','''                let quantize_factor = (*period >> 13).max(1);''')],
 demo='''
use substrate_parser::additional_types::Era;
fn main() {
    let e = Era::decode(&mut &[0x2d, 0x01][..]).unwrap();
    let b = e.encode();
    assert_eq!(Era::decode(&mut &b[..]).unwrap(), e, "{b:?}");
}'''),
dict(id='marked-only-spec', property='C08',
 needs='extensions that are complete, followed by leftover bytes, in unmarked parsing with a call that has arguments',
 breaks='the unmarked parse accepts one trailing byte',
 edits=[(EXT,'''    if *position != data.total_len() {
        return Err''','''    if *position < data.total_len().saturating_sub(usize::from(optional_genesis_hash.is_none() && extensions.len() > 8)) {
        return Err''')],
 demo=TX+'''
fn main() {
    let mut x = usual_exts();
    x.push(ext("A", 7, 7));
    x.push(ext("B", 7, 7));
    let m = meta15(call_types(), 12, &x);
    let e = [usual_ext_bytes(&[0], 7, [1; 32], [1; 32]), vec![3]].concat();
    let d = [call_bytes(), e].concat();
    assert!(parse_transaction_unmarked::<&[u8], (), M>(&d.as_ref(), &mut (), &m, None).is_err());
}'''),
dict(id='long-fraction', property='C21',
 needs='an amount with more than 32 digits after the point',
 breaks='the last digits of very long fractions are cut',
 edits=[(BAL,'''                        let after_point = Some(balance[balance.len() - length..].to_string());
                        (before_point, after_point, mag)
                    } else {''','''                        let after_point = Some(
                            balance[balance.len() - length..]
                                .chars()
                                .take(32)
                                .collect::<String>(),
                        );
                        (before_point, after_point, mag)
                    } else {''')],
 demo='''
use substrate_parser::printing_balance::AsBalance;
fn main() {
    let b = <u128>::convert_balance_pretty(u128::MAX, 38, "U");
    assert_eq!(b.number.replace('.', "").trim_start_matches('0'), u128::MAX.to_string());
}'''),
dict(id='many-zeroes', property='C21',
 needs='a decimals setting above 82 and a small amount',
 breaks='the zeros after the point are limited to 64',
 edits=[(BAL,'''        "0".repeat(zeroes_after_point_before_value as usize),''','''        "0".repeat((zeroes_after_point_before_value as usize).min(64)),''')],
 demo='''
use substrate_parser::printing_balance::AsBalance;
fn main() {
    let b = <u32>::convert_balance_pretty(5, 200, "U");
    assert_eq!(b.number.len(), 2 + 200 - 18);
}'''),
]
