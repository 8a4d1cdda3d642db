D='src/decoding_sci.py'
SCI='src/decoding_sci.rs'
BUGS = [
dict(id='compact-nested', property='C04',
 needs='a registry with a compact whose content is again a compact',
 breaks='a compact around a compact is read as one compact number instead of being refused',
 edits=[(SCI,'''            TypeDef::Compact(x) => {
                propagated.reject_compact()?;
''','''            TypeDef::Compact(x) => {
''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), compact(0), comp("Wrapper", vec![f("", 1, "")]), compact(2)]);
    assert!(all(&r, 3, &[8]).is_err(), "compact around a compact must be refused");
}'''),
dict(id='husk-compact-nested', property='C04',
 needs='a vector whose element type is a compact of a struct holding a compact',
 breaks='nested compacts inside a sequence element are accepted',
 edits=[(SCI,'''                TypeDef::Compact(x) => {
                    checker.reject_compact()?;
''','''                TypeDef::Compact(x) => {
''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), compact(0), comp("Wrapper", vec![f("", 1, "")]), compact(2), seq(3)]);
    assert!(all(&r, 4, &[4, 8]).is_err());
}'''),
dict(id='empty-in-vecs', property='C12',
 needs='a vector of byte vectors that starts with a non-empty one and contains an empty one later',
 breaks='empty byte vectors are dropped from the compact representation',
 edits=[('src/special_types.rs','''                    if a.data.is_empty() {
                        out.push(Vec::new())
                    } else {
                        return None;
                    }''','''                    if !a.data.is_empty() {
                        return None;
                    }''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), seq(0), seq(1)]);
    let d = all(&r, 2, &[12, 4, 7, 0, 4, 9]).unwrap();
    match d.data {
        ParsedData::Sequence(SequenceData { data: Sequence::VecU8 { sequence, .. }, .. }) => {
            assert_eq!(sequence, vec![vec![7u8], vec![], vec![9]])
        }
        other => panic!("{other:?}"),
    }
}'''),
dict(id='labelled-wrap', property='C12',
 needs='a vector of single-field structs whose field makes the number a balance',
 breaks='labelled numbers are collapsed into a plain number vector, losing their label',
 edits=[('src/special_types.rs','ParsedData::$enum_variant_input{value: a, specialty: SpecialtyUnsignedInteger::None} = x','ParsedData::$enum_variant_input{value: a, specialty: SpecialtyUnsignedInteger::None | SpecialtyUnsignedInteger::Balance} = x')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U64), comp("Deposit", vec![f("", 0, "BalanceOf<T>")]), seq(1)]);
    let d = all(&r, 2, &[vec![8u8], 5u64.encode(), 6u64.encode()].concat()).unwrap();
    match d.data {
        ParsedData::SequenceRaw(x) => {
            assert_eq!(x.data[1], ParsedData::PrimitiveU64 { value: 6, specialty: SpecialtyUnsignedInteger::Balance })
        }
        other => panic!("{other:?}"),
    }
}'''),
dict(id='bits-empty', property='C13',
 needs='an empty bit sequence with bytes after it',
 breaks='an empty bit sequence takes one store element from the bytes that follow, or fails',
 edits=[(SCI,'''            0 => byte_length / bytes_per_element,
''','''            0 if byte_length > 0 => byte_length / bytes_per_element,
''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U16), comp("bitvec::order::Msb0", vec![]), bits(0, 1)]);
    let (d, p) = at(&r, 2, &[0, 1, 2, 3], 0);
    d.expect("an empty bit sequence");
    assert_eq!(p, 1);
}'''),
dict(id='bits-order-namespace', property='C13',
 needs='a bit sequence whose order type has the right name but is not a struct',
 breaks='a bit order type that is not a struct is accepted',
 edits=[(SCI,'''        TypeDef::Composite(_) => match bitorder_type.path.ident() {''','''        TypeDef::Composite(_) | TypeDef::Variant(_) => match bitorder_type.path.ident() {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), enm("bitvec::order::Lsb0", vec![]), bits(0, 1)]);
    assert!(all(&r, 2, &[4, 1]).is_err());
}'''),
dict(id='event-in-call', property='C10',
 needs='a call-path enum whose selected variant holds an event-path enum',
 breaks='an enum that mixes call and event paths is reported as a call',
 edits=[('src/special_indicators.rs','''                                            if item != item_repeated {
                                                Self::None
                                            } else if let''','''                                            if item != item_repeated
                                                && item == PalletSpecificItem::Event
                                            {
                                                Self::None
                                            } else if let''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U8),
        enm("pallet::Event", vec![v("happened", 0, vec![f("", 0, "")])]),
        enm("runtime::RuntimeCall", vec![v("Pallet", 3, vec![f("", 1, "")])]),
    ]);
    match all(&r, 2, &[3, 0, 9]).unwrap().data {
        ParsedData::Variant(x) => assert_eq!(x.variant_name, "Pallet"),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='two-field-pallet', property='C10',
 needs='a call-path enum whose selected variant has two fields, the first of them a call-path enum',
 breaks='the second field of such a variant is skipped and the data reported as a call',
 edits=[('src/special_indicators.rs','''                            if pallet_variant.fields.len() == 1 {
                                let item_ty_id''','''                            if !pallet_variant.fields.is_empty() {
                                let item_ty_id''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U8),
        enm("pallet::Call", vec![v("act", 0, vec![f("", 0, "")])]),
        enm("runtime::RuntimeCall", vec![v("Pallet", 3, vec![f("", 1, ""), f("", 0, "")])]),
    ]);
    let (d, p) = at(&r, 2, &[3, 0, 9, 8], 0);
    assert!(d.is_ok());
    assert_eq!(p, 4);
}'''),
dict(id='public-any-namespace', property='C11',
 needs='a type called Public in a namespace that ends like the sp_core one',
 breaks='a look-alike public key type is decoded as a fixed 32-byte sp_core key',
 edits=[('src/special_indicators.rs','''                PUBLIC => match ty
                    .path
                    .namespace()
                    .iter()
                    .map(|x| x.as_str())
                    .collect::<Vec<&str>>()
                    .as_ref()''','''                PUBLIC => match ty
                    .path
                    .namespace()
                    .iter()
                    .map(|x| x.as_str())
                    .skip_while(|x| *x != "sp_core")
                    .collect::<Vec<&str>>()
                    .as_ref()''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), comp("wrapper::sp_core::sr25519::Public", vec![f("a", 0, ""), f("b", 0, "")])]);
    match all(&r, 1, &[1, 2]) {
        Ok(ExtendedData { data: ParsedData::Composite(x), .. }) => assert_eq!(x.len(), 2),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='ed-signature-length', property='C11',
 needs='a MultiSignature variant named ed25519::Signature over an array that is not 64 bytes long',
 breaks='a MultiSignature variant is read as an ed25519 signature whatever the array length',
 edits=[('src/special_indicators.rs','''                        if array_u8_length == substrate_crypto_light::ed25519::SIGNATURE_LEN as u32
                        {''','''                        if array_u8_length >= substrate_crypto_light::ed25519::SIGNATURE_LEN as u32
                        {''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U8),
        arr(65, 0),
        enm("sp_runtime::MultiSignature", vec![v("Ed25519", 0, vec![f("", 1, "ed25519::Signature")])]),
    ]);
    match all(&r, 2, &[0; 66]) {
        Ok(ExtendedData { data: ParsedData::Variant(x), .. }) => assert_eq!(x.variant_name, "Ed25519"),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='hint-type-first', property='C09',
 needs='a field named nonce whose type name is a balance name',
 breaks='the type name wins over the field name, so a nonce is labelled a balance',
 edits=[('src/special_indicators.rs','''        if let Self::None = out {
            if let Some(type_name)''','''        if matches!(out, Self::None | Self::FieldNonce) {
            if let Some(type_name)'''),
  ('src/special_indicators.rs','''                    a if BALANCE_ID_SET.contains(&a) => Self::FieldBalance,
                    _ => Self::None,''','''                    a if BALANCE_ID_SET.contains(&a) => Self::FieldBalance,
                    _ => out,''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), comp("A", vec![f("nonce", 0, "T::Balance"), f("x", 0, "")])]);
    match all(&r, 1, &[1, 0, 0, 0, 2, 0, 0, 0]).unwrap().data {
        ParsedData::Composite(x) => assert_eq!(
            x[0].data.data,
            ParsedData::PrimitiveU32 { value: 1, specialty: SpecialtyUnsignedInteger::Nonce }
        ),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='husk-innermost', property='C09',
 needs='a vector element wrapped in two single-field structs that both name a label',
 breaks='inside sequences the innermost label wins instead of the outermost',
 edits=[(SCI,'''                        if let Hint::None = checker.specialty_set.hint {
                            checker.specialty_set.hint = Hint::from_field(&x.fields[0])
                        }''','''                        match Hint::from_field(&x.fields[0]) {
                            Hint::None => (),
                            hint => checker.specialty_set.hint = hint,
                        }''')],
 demo='''
fn main() {
    let r = reg(vec![
        prim(P::U32),
        comp("Inner", vec![f("", 0, "Balance")]),
        comp("Outer", vec![f("nonce", 1, "")]),
        seq(2),
    ]);
    match all(&r, 3, &[4, 9, 0, 0, 0]).unwrap().data {
        ParsedData::SequenceRaw(x) => assert_eq!(
            x.data[0],
            ParsedData::PrimitiveU32 { value: 9, specialty: SpecialtyUnsignedInteger::Nonce }
        ),
        other => panic!("{other:?}"),
    }
}'''),
dict(id='tuple-keeps-hint', property='C09',
 needs='a labelled field whose type is a tuple of two numbers',
 breaks='a label survives into a multi-element tuple and marks its numbers',
 edits=[(SCI,'''                if x.fields.len() > 1 {
                    propagated.reject_compact()?;
                    propagated.forget_hint();
                }
                let mut tuple''','''                if x.fields.len() > 1 {
                    propagated.reject_compact()?;
                }
                if x.fields.len() > 2 {
                    propagated.forget_hint();
                }
                let mut tuple''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U32), tup(&[0, 0]), comp("A", vec![f("x", 1, "Balance")])]);
    let d = all(&r, 2, &[9, 0, 0, 0, 8, 0, 0, 0]).unwrap();
    assert!(!format!("{d:?}").contains("specialty: Balance"));
}'''),
]
