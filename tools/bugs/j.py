SCI='src/decoding_sci.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CMP='src/compacts.rs'
TR='src/traits.rs'
ST='src/special_types.rs'
STOR='src/storage_data.rs'
PROP='src/propagated.rs'
LIB='src/lib.rs'
BUGS = [
dict(id='bytes-at-once', property='C03',
 needs='a vector of more than 64 bytes that ends too early',
 breaks='long byte vectors are looked at as a whole first, so the error names another cause and place',
 edits=[(SCI,'''            let mut out: Vec<ParsedData> = Vec::new();
            for _i in 0..number_of_elements {''','''            let mut out: Vec<ParsedData> = Vec::new();
            if number_of_elements > 64
                && matches!(husked.ty.type_def, TypeDef::Primitive(TypeDefPrimitive::U8))
                && husked.checker.specialty_set.compact_at.is_none()
            {
                data.read_slice(ext_memory, *position, number_of_elements as usize)?;
            }
            for _i in 0..number_of_elements {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), seq(0)]);
    let mut b = vec![0x41, 0x01];
    b.extend([1u8; 70]);
    let e = all(&r, 1, &b).unwrap_err();
    assert!(format!("{e:?}").contains("DataTooShort { position: 72, minimal_length: 1 }"), "{e:?}");
}'''),
dict(id='char-upper-byte', property='C01',
 needs='a char whose highest byte is not zero, the lower ones being a char',
 breaks='the highest byte is left out of the number the char is made of',
 edits=[(ST,'''                .try_into()
                .expect("constant length, always fit"),
        )) {''','''                .try_into()
                .expect("constant length, always fit"),
        ) & 0x00ff_ffff) {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::Char)]);
    assert!(all(&r, 0, &[0x41, 0, 0, 0]).is_ok());
    assert!(all(&r, 0, &[0x41, 0, 0, 1]).is_err());
}'''),
dict(id='padding-left', property='C02',
 needs='data followed by nothing but zeros, up to a whole number of 32-byte words',
 breaks='what is left is taken for padding',
 edits=[(LIB,'''    if position != data.total_len() {
        Err(ParserError::SomeDataNotUsedBlob { from: position })''','''    let left = data.total_len() - position;
    let padding = data.total_len() % 32 == 0
        && data
            .read_slice(ext_memory, position, left)
            .map(|x| x.as_ref().iter().all(|b| *b == 0))?;
    if left != 0 && !padding {
        Err(ParserError::SomeDataNotUsedBlob { from: position })''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U64)]);
    let mut b = vec![7u8; 8];
    assert!(all(&r, 0, &b).is_ok());
    b.extend([0u8; 24]);
    assert!(all(&r, 0, &b).is_err());
}'''),
dict(id='compact-cut-sixteen', property='C04',
 needs='a compact u128 of the full 17 bytes',
 breaks='one byte less than the longest compact is looked at',
 edits=[(CMP,'''        if i > MAX_COMPACT_LEN {''','''        if i + 1 >= MAX_COMPACT_LEN {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U128), compact(0)]);
    let mut b = vec![0x33];
    b.extend([0xffu8; 16]);
    assert!(all(&r, 1, &b).is_ok());
}'''),
dict(id='variant-fault', property='C18',
 needs='external memory failing at the byte that selects the variant',
 breaks='the failure is reported as a variant that does not exist',
 edits=[(SCI,'''    let enum_index = data.read_byte(ext_memory, position)?;
''','''    let enum_index = match data.read_byte(ext_memory, position) {
        Ok(a) => a,
        Err(BufferError::External(_)) => return Err(ParserError::UnexpectedEnumVariant { position }),
        Err(e) => return Err(ParserError::Buffer(e)),
    };
'''),(SCI,'''use external_memory_tools::''','''#[cfg(not(any(target_pointer_width = "32", test, substrate_parser_verif)))]
use external_memory_tools::BufferError;
use external_memory_tools::''')],
 demo='''
fn main() {
    let r = reg(vec![enm("", vec![v("a", 1, vec![])])]);
    let mut mem = Mem { n: 0, fail_at: Some(0) };
    let e = decode_all_as_type::<ExtBuf, Mem, RuntimeMetadataV14>(&0u32.into(), &extbuf(&[1]), &mut mem, &r).unwrap_err();
    assert!(format!("{e:?}").contains("External"), "{e:?}");
}'''),
dict(id='id-word', property='C14',
 needs='a type that refers to one of number 65536 or beyond, in a registry that has none such',
 breaks='only the low 16 bits of the number are looked up',
 edits=[(TR,'''        match self.resolve(id) {
            Some(a)''','''        match self.resolve(id as u16 as u32) {
            Some(a)''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), tup(vec![65536])]);
    assert!(all(&r, 1, &[1]).is_err());
}'''),
dict(id='long-path-info', property='C19',
 needs='a type whose path has more than eight parts',
 breaks='the information on such types is not kept',
 edits=[(PROP,'''        if !info_update.is_empty() {
            self.info.push(info_update.clone())''','''        if !info_update.is_empty() && info_update.path.segments.len() <= 8 {
            self.info.push(info_update.clone())''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), comp("a::b::c::d::e::f::g::h::i", vec![f("", 0, "")])]);
    assert_eq!(all(&r, 1, &[1]).unwrap().info.len(), 1);
}'''),
dict(id='wide-tuple', property='C01',
 needs='a tuple of more than 18 elements',
 breaks='only as many elements as tuples may implement Encode for are decoded',
 edits=[(SCI,'''                for inner_ty_symbol in x.fields.iter() {''','''                for inner_ty_symbol in x.fields.iter().take(18) {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), tup(vec![0; 19])]);
    assert!(all(&r, 1, &[1; 19]).is_ok());
}'''),
dict(id='many-fields-hint', property='C09',
 needs='a struct of more than 16 fields, one of the later ones named as a balance or nonce',
 breaks='fields from the seventeenth on get no meaning',
 edits=[(SCI,'''    for field in fields.iter() {
        let field_name = field.name.to_owned();
        let type_name = field.type_name.to_owned();''','''    for (index, field) in fields.iter().enumerate() {
        let field_name = field.name.to_owned();
        let type_name = field.type_name.to_owned();
        let bare = Field { name: None, type_name: None, ..field.clone() };'''),
 (SCI,'''            Propagated::for_field(&checker, field)?,''','''            Propagated::for_field(&checker, if index < 16 { field } else { &bare })?,''')],
 demo='''
fn main() {
    let mut fs: Vec<_> = (0..17).map(|i| f(&format!("a{i}"), 0, "")).collect();
    fs.push(f("balance", 0, "Balance"));
    let r = reg(vec![prim(TypeDefPrimitive::U128), comp("x::Y", fs)]);
    let d = all(&r, 1, &[1; 16 * 18]).unwrap();
    assert!(format!("{d:?}").contains("Balance,") || format!("{d:?}").contains("specialty: Balance"), "{d:?}");
}'''),
dict(id='deep-indent', property='C20',
 needs='a value nested more than a dozen deep, shown as cards',
 breaks='cards stop moving to the right at level 24',
 edits=[(CARDS,'''            indent: indent + 1,
''','''            indent: (indent + 1).min(24),
''')],
 demo='''
fn main() {
    let mut ts = vec![prim(TypeDefPrimitive::U8)];
    for i in 0..30 { ts.push(comp("", vec![f("a", i, "")])); }
    let r = reg(ts);
    let c = all(&r, 30, &[1]).unwrap().card(0, false, &specs(), "x");
    let deepest = c.iter().map(|x| x.indent).max().unwrap();
    assert!(deepest >= 30, "{deepest}");
}'''),
dict(id='tuple-of-one-key', property='C15',
 needs='a map with one hasher whose key is a tuple of one element',
 breaks='the element stands for the tuple',
 edits=[(STOR,'''    let key_data = {
        if hashers.len() == 1 {''','''    let resolved = registry.resolve_ty(key_ty.id, ext_memory);
    let key_ty = match resolved.as_ref().map(|x| &x.type_def) {
        Ok(TypeDef::Tuple(t)) if t.fields.len() == 1 && hashers.len() == 1 => &t.fields[0],
        _ => key_ty,
    };
    let key_data = {
        if hashers.len() == 1 {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), tup(vec![0])]);
    let k = substrate_parser::storage_data::process_key_mapped::<&[u8], (), RuntimeMetadataV14>(
        &[frame_metadata::v14::StorageHasher::Identity], &1u32.into(), &[1u8].as_ref(), &mut (), 0, &r).unwrap();
    assert!(format!("{k:?}").contains("Tuple"), "{k:?}");
}'''),
dict(id='huge-decimals', property='C21',
 needs='more than 127 decimals',
 breaks='the number of zeros is counted in a signed byte',
 edits=[(BAL,'''        "0".repeat(zeroes_after_point_before_value as usize),''','''        "0".repeat((zeroes_after_point_before_value as i8).max(0) as usize),''')],
 demo='''
fn main() {
    use substrate_parser::printing_balance::AsBalance;
    let c = <u128>::convert_balance_pretty(5, 200, "U");
    assert_eq!(c.number.len(), 2 + 200 - 18);
}'''),
dict(id='long-number', property='C21',
 needs='a u128 of 39 digits',
 breaks='the last digit of the longest numbers is lost',
 edits=[(BAL,'''                    convert_balance_string(&value.to_string(), decimals, unit)''','''                    let text = value.to_string();
                    convert_balance_string(&text[..text.len().min(38)], decimals, unit)''')],
 demo='''
fn main() {
    use substrate_parser::printing_balance::AsBalance;
    let c = <u128>::convert_balance_pretty(u128::MAX, 0, "U");
    assert_eq!(c.number.replace('.', ""), u128::MAX.to_string());
}'''),
dict(id='same-index-pallets', property='C10',
 needs='a call enum in which two pallets have one index',
 breaks='the name is taken of the last pallet with that index, the call of the first',
 edits=[('src/special_indicators.rs','''pallet_name: variant.name.to_owned(),''','''pallet_name: x.variants.iter().rev().find(|y| y.index == variant.index).unwrap_or(&variant).name.to_owned(),''')],
 demo='''
fn main() {}'''),
]
