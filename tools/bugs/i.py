SCI='src/decoding_sci.rs'
CARDS='src/cards.rs'
BAL='src/printing_balance.rs'
CMP='src/compacts.rs'
TR='src/traits.rs'
BUGS = [
dict(id='variant-last-found', property='C25',
 needs='an enum with two variants of one index, decoded after another enum whose variant was found further back',
 breaks='the search for a variant begins where the last one ended, so which of two is found depends on earlier calls',
 edits=[(SCI,'''    let mut found_variant = None;
    for x in variants.iter() {
        if x.index == enum_index {
            found_variant = Some(x);
            break;
        }
    }
    match found_variant {''','''    static LAST: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    let from = LAST.load(core::sync::atomic::Ordering::Relaxed);
    let mut found_variant = None;
    for i in 0..variants.len() {
        let at = (from + i) % variants.len();
        if variants[at].index == enum_index {
            LAST.store(at, core::sync::atomic::Ordering::Relaxed);
            found_variant = Some(&variants[at]);
            break;
        }
    }
    match found_variant {''')],
 demo='''
fn main() {
    let r = reg(vec![enm("", vec![v("a", 1, vec![]), v("b", 2, vec![]), v("c", 1, vec![])])]);
    let first = all(&r, 0, &[1]).unwrap();
    all(&r, 0, &[2]).unwrap();
    assert_eq!(all(&r, 0, &[1]).unwrap(), first);
}'''),
dict(id='address-memo', property='C25',
 needs='cards of one account made with two address prefixes, one after the other',
 breaks='the address last made is kept by account and given again whatever the prefix',
 edits=[(CARDS,'''                    let base58 = value.to_base58_string(base58prefix);
                    let identicon =''','''                    std::thread_local! {
                        static LAST: core::cell::RefCell<(Vec<u8>, String)> = const { core::cell::RefCell::new((Vec::new(), String::new())) };
                    }
                    let base58 = LAST.with(|last| {
                        let mut last = last.borrow_mut();
                        if last.0 != AsRef::<[u8]>::as_ref(&value.0) {
                            *last = (AsRef::<[u8]>::as_ref(&value.0).to_vec(), value.to_base58_string(base58prefix));
                        }
                        last.1.clone()
                    });
                    let identicon =''')],
 demo='''
fn main() {
    let r = reg(vec![prim(TypeDefPrimitive::U8), arr(32, 0), comp("sp_core::crypto::AccountId32", vec![f("", 1, "")])]);
    let show = |prefix| {
        let specs = ShortSpecs { base58prefix: prefix, decimals: 12, unit: "U".to_string() };
        all(&r, 2, &[7; 32]).unwrap().card(0, true, &specs, "x")[0].show()
    };
    let (x, y) = (show(42), show(0));
    assert_ne!(x, y);
}'''),
dict(id='units-memo', property='C25',
 needs='the same balance printed for two chains with the same decimals, one after the other',
 breaks='the printed balance is remembered by amount and decimals only, unit aside',
 edits=[(BAL,'''                    convert_balance_string(&value.to_string(), decimals, unit)
                }''','''                    let printed = value.to_string();
                    #[cfg(feature = "std")]
                    {
                        extern crate std;
                        std::thread_local! {
                            static LAST: core::cell::RefCell<Option<(String, u8, Currency)>> = const { core::cell::RefCell::new(None) };
                        }
                        if let Some(found) = LAST.with(|last| match &*last.borrow() {
                            Some((p, d, c)) if *p == printed && *d == decimals && printed.len() > 9 => Some(c.clone()),
                            _ => None,
                        }) {
                            return found;
                        }
                        let out = convert_balance_string(&printed, decimals, unit);
                        LAST.with(|last| *last.borrow_mut() = Some((printed, decimals, out.clone())));
                        out
                    }
                    #[cfg(not(feature = "std"))]
                    convert_balance_string(&printed, decimals, unit)
                }''')],
 demo='''
use substrate_parser::printing_balance::AsBalance;
fn main() {
    let a = u128::convert_balance_pretty(12345678901234, 12, "DOT");
    let b = u128::convert_balance_pretty(12345678901234, 12, "KSM");
    assert_eq!((a.units.as_str(), b.units.as_str()), ("DOT", "KSM"));
}'''),
dict(id='compact-resume', property='C25',
 needs='a compact read after memory failed in the middle of another one',
 breaks='after a failed read the next search for a compact goes on from the length it had reached',
 edits=[(CMP,'''    let mut out = None;
    for i in 0..(data.total_len() - position) {''','''    static REACHED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    let mut out = None;
    let from = REACHED.swap(0, core::sync::atomic::Ordering::Relaxed);
    for i in from..(data.total_len() - position) {'''),(CMP,'''        let hippo = data.read_slice(ext_memory, position, i + 1)?;
''','''        let hippo = data.read_slice(ext_memory, position, i + 1);
        if let (Err(BufferError::External(_)), true) = (&hippo, i > 0) {
            REACHED.store(i, core::sync::atomic::Ordering::Relaxed);
        }
        let hippo = hippo?;
''')],
 demo='''
fn main() {
    let d: &[u8] = &[0xfd, 0xff, 8, 8];
    let good = substrate_parser::compacts::find_compact::<u32, &[u8], ()>(&d, &mut (), 2).unwrap().start_next_unit;
    let mut m = Mem { n: 0, fail_at: 2 };
    let _ = substrate_parser::compacts::find_compact::<u32, ExtBuf, Mem>(&extbuf(d), &mut m, 0);
    let e: &[u8] = &[8, 8, 8];
    let again = substrate_parser::compacts::find_compact::<u32, &[u8], ()>(&e, &mut (), 0).unwrap().start_next_unit;
    assert_eq!((good, again), (3, 1));
}'''),
dict(id='husk-memo', property='C25',
 needs='vectors of one structure as element, whose inner number has other types in two metadata',
 breaks='what an element type comes down to is remembered by its number and description, not by what the registry has inside',
 edits=[(SCI,'''    let mut ty = registry.resolve_ty(entry_symbol_id, ext_memory)?;
    let mut id = entry_symbol_id;
    let mut info: Vec<Info> = Vec::new();

    loop {''','''    let mut ty = registry.resolve_ty(entry_symbol_id, ext_memory)?;
    let mut id = entry_symbol_id;
    let mut info: Vec<Info> = Vec::new();

    #[cfg(feature = "std")]
    type Kept = (u32, Type<PortableForm>, Vec<u32>, Vec<Info>, Checker, Type<PortableForm>, u32);
    #[cfg(feature = "std")]
    std::thread_local! {
        static KEPT: core::cell::RefCell<Option<Kept>> = const { core::cell::RefCell::new(None) };
    }
    #[cfg(feature = "std")]
    let (entry_ty, before) = (ty.clone(), checker.cycle_check.clone());
    #[cfg(feature = "std")]
    if let Some(found) = KEPT.with(|k| match &*k.borrow() {
        Some(k) if k.0 == entry_symbol_id && k.1 == ty && k.2 == before => Some(HuskedType {
            info: k.3.clone(),
            checker: k.4.clone(),
            ty: k.5.clone(),
            id: k.6,
        }),
        _ => None,
    }) {
        return Ok(found);
    }

    loop {'''),(SCI,'''    Ok(HuskedType {
        info,
        checker,
        ty,
        id,
    })''','''    #[cfg(feature = "std")]
    if id != entry_symbol_id {
        KEPT.with(|k| {
            *k.borrow_mut() = Some((entry_symbol_id, entry_ty, before, info.clone(), checker.clone(), ty.clone(), id))
        });
    }
    Ok(HuskedType {
        info,
        checker,
        ty,
        id,
    })''')],
 demo='''
fn main() {
    let make = |p| reg(vec![prim(p), comp("Wrap", vec![f("a", 0, "")]), seq(1)]);
    let (a, b) = (make(TypeDefPrimitive::U8), make(TypeDefPrimitive::U16));
    let first = all(&b, 2, &[4, 1, 0]).unwrap();
    all(&a, 2, &[4, 1]).unwrap();
    assert_eq!(all(&b, 2, &[4, 1, 0]).unwrap(), first);
}'''),
dict(id='text-scratch', property='C25',
 needs='texts decoded on several threads at the same time',
 breaks='the bytes of a text pass through one buffer shared by all threads, let go between filling it and reading it',
 edits=[(SCI,'''    let text = match String::from_utf8(into_string.as_ref().to_vec()) {''','''    #[cfg(not(feature = "std"))]
    let bytes = into_string.as_ref().to_vec();
    #[cfg(feature = "std")]
    let bytes = {
        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        if let Ok(mut scratch) = SCRATCH.lock() {
            scratch.clear();
            scratch.extend_from_slice(into_string.as_ref());
        }
        SCRATCH.lock().map(|scratch| scratch.clone()).unwrap_or_default()
    };
    let text = match String::from_utf8(bytes) {''')],
 demo='''
fn main() {
    let hs: Vec<_> = (0..8u8)
        .map(|i| {
            std::thread::spawn(move || {
                let r = reg(vec![prim(TypeDefPrimitive::Str)]);
                let d = [vec![40u8], vec![b'a' + i; 10]].concat();
                let first = [b'a' + i; 10];
                for _ in 0..60000 {
                    match all(&r, 0, &d).unwrap().data {
                        ParsedData::Text { text, .. } => assert_eq!(text.as_bytes(), &first),
                        _ => panic!(),
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}'''),
dict(id='version-memo', property='C25',
 needs='spec version read from two metadata whose version constants have the same bytes and type number, the types differing',
 breaks='the decoded version is remembered by constant bytes and type number',
 edits=[(TR,'''        let (value, ty) = version_constant_data_and_ty_v15(&self.pallets)?;
        match decode_all''','''        let (value, ty) = version_constant_data_and_ty_v15(&self.pallets)?;
        #[cfg(feature = "std")]
        static SEEN: std::sync::Mutex<Option<(Vec<u8>, u32, SpecNameVersion)>> = std::sync::Mutex::new(None);
        #[cfg(feature = "std")]
        if let Ok(seen) = SEEN.lock() {
            if let Some((v, t, out)) = &*seen {
                if *v == value && *t == ty.id {
                    return Ok(SpecNameVersion {
                        printed_spec_version: out.printed_spec_version.clone(),
                        spec_name: out.spec_name.clone(),
                    });
                }
            }
        }
        match decode_all'''),(TR,'''            &self.types,
        ) {
            Ok(extended_data) => Ok(spec_name_version_from_runtime_version_data(
                extended_data.data,
            )?),
            Err(_) => Err(MetaVersionErrorPallets::RuntimeVersionNotDecodeable),
        }
    }

    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, Self::MetaStructureError> {
        Ok(self.extrinsic.call_ty)''','''            &self.types,
        ) {
            Ok(extended_data) => {
                let out = spec_name_version_from_runtime_version_data(extended_data.data)?;
                #[cfg(feature = "std")]
                if let Ok(mut seen) = SEEN.lock() {
                    *seen = Some((
                        value.to_vec(),
                        ty.id,
                        SpecNameVersion {
                            printed_spec_version: out.printed_spec_version.clone(),
                            spec_name: out.spec_name.clone(),
                        },
                    ));
                }
                Ok(out)
            }
            Err(_) => Err(MetaVersionErrorPallets::RuntimeVersionNotDecodeable),
        }
    }

    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, Self::MetaStructureError> {
        Ok(self.extrinsic.call_ty)''')],
 demo='''
fn main() {
    let mut other = std_types();
    other[3] = comp("sp_version::RuntimeVersion", vec![f("spec_name", 2, ""), f("spec_version", 0, "")]);
    let (a, b) = (meta15(std_types(), 7, &[]), meta15(other, 7, &[]));
    let one = |m: &M| AsMetadata::<()>::spec_name_version(m).is_ok();
    assert_eq!(one(&b), false);
    assert!(one(&a));
    assert_eq!(one(&b), false);
}'''),
]
