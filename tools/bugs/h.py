SCI='src/decoding_sci.rs'
IND='src/special_indicators.rs'
PROP='src/propagated.rs'
CARDS='src/cards.rs'
USE='''
use substrate_parser::decoding_sci::*;
use substrate_parser::propagated::*;
'''
BUGS = [
dict(id='bits-end-bytes', property='C24',
 needs='the end position of a bit sequence asked for directly, elements wider than the bits need',
 breaks='the public end position counts whole bytes, not whole elements; decoding itself goes on from elsewhere',
 edits=[(SCI,'''        let bitvec_end = data_start + slice_length;

        let minimal_length = bitvec_end - bitvec_start;
''','''        let bitvec_end = data_start + byte_length;

        let minimal_length = data_start + slice_length - bitvec_start;
'''),(SCI,'''    *position = bitvec_positions.bitvec_end;
    Ok(into_bitvec_decode)''','''    *position += bitvec_positions.minimal_length;
    Ok(into_bitvec_decode)'''),(SCI,'''                    *position = bitvec_positions.bitvec_end;
''','''                    *position += bitvec_positions.minimal_length;
''')],
 demo=USE+'''
fn main() {
    let d: &[u8] = &[4, 1, 0, 0, 0];
    assert_eq!(BitVecPositions::new::<u32, &[u8], ()>(&d, &mut (), 0).unwrap().bitvec_end, 5);
}'''),
dict(id='husk-hint-kept', property='C24',
 needs='a hint passed to the resolution of an element type',
 breaks='the element starts from the hint of what it is an element of; the decoder takes the hint away before, so only direct use shows it',
 edits=[(SCI,'''    checker.specialty_set = SpecialtySet {
        compact_at: None,
        hint: Hint::None,
    };
''','''    checker.specialty_set.compact_at = None;
'''),(SCI,'''    propagated.reject_compact()?;

    let husked = husk_type::<E, M>(element, registry, ext_memory, propagated.checker)?;
''','''    propagated.reject_compact()?;

    let mut checker = propagated.checker;
    checker.specialty_set = SpecialtySet::new();
    let husked = husk_type::<E, M>(element, registry, ext_memory, checker)?;
''')],
 demo=USE+'''
fn main() {
    let r = reg(vec![prim(P::U32)]);
    let mut k = Checker::new();
    k.specialty_set.hint = Hint::FieldNonce;
    let h = husk_type::<(), M>(&s(0), &r, &mut (), k).unwrap();
    assert!(matches!(h.checker.specialty_set.hint, Hint::None));
}'''),
dict(id='husk-compact-mark', property='C24',
 needs='an element type resolved below a compact mark',
 breaks='a compact mark that was passed on is taken for one of the element itself, compact elements are refused',
 edits=[(SCI,'''    checker.specialty_set = SpecialtySet {
        compact_at: None,
        hint: Hint::None,
    };
''','''    checker.specialty_set.hint = Hint::None;
''')],
 demo=USE+'''
fn main() {
    let r = reg(vec![prim(P::U32), compact(0)]);
    let mut k = Checker::new();
    k.specialty_set.compact_at = Some(7);
    assert!(husk_type::<(), M>(&s(1), &r, &mut (), k).is_ok());
}'''),
dict(id='special-position', property='C24',
 needs='the recognition of a pallet enum called directly',
 breaks='the position stays at the pallet index; the decoder moves it itself',
 edits=[(IND,'''                                                let pallet_info = Info::from_ty(&variants_ty);
                                                *position += ENUM_INDEX_ENCODED_LEN;
''','''                                                let pallet_info = Info::from_ty(&variants_ty);
'''),(SCI,'''            let variant_data =
                decode_variant::<B, E, M>(&variants,''','''            *position += ENUM_INDEX_ENCODED_LEN;
            let variant_data =
                decode_variant::<B, E, M>(&variants,''')],
 demo='''
fn main() {
    let r = reg(vec![enm("a::RuntimeCall", vec![v("P", 3, vec![f("", 1, "")])]), enm("p::Call", vec![v("x", 0, vec![])])]);
    let d: &[u8] = &[3, 0];
    let mut p = 0;
    SpecialtyTypeChecked::from_type::<&[u8], (), M>(&r.types[0].ty, &d, &mut (), &mut p, &r);
    assert_eq!(p, 1);
}'''),
dict(id='extrinsic-any-path', property='C24',
 needs='a type named UncheckedExtrinsic that is from somewhere else than the generic module',
 breaks='it is recognised as the extrinsic type',
 edits=[(IND,'''                    .map(|x| x.as_str())
                    .collect::<Vec<&str>>()
                    .as_ref()
                {
                    UNCHECKED_EXTRINSIC_NAMESPACE => Self::UncheckedExtrinsic,
                    _ => Self::None,''','''                    .map(|x| x.as_str())
                    .collect::<Vec<&str>>()
                    .as_slice()
                {
                    x if x.last() == UNCHECKED_EXTRINSIC_NAMESPACE.last() => {
                        Self::UncheckedExtrinsic
                    }
                    _ => Self::None,''')],
 demo='''
fn main() {
    let last = UNCHECKED_EXTRINSIC_NAMESPACE.last().unwrap();
    let t = comp(&format!("other::{last}::UncheckedExtrinsic"), vec![]);
    assert_eq!(SpecialtyTypeHinted::from_type(&t), SpecialtyTypeHinted::None);
}'''),
dict(id='tuple-compact-lost', property='C24',
 needs='the state for a tuple part made below a compact mark',
 breaks='the compact mark is not passed on to the part',
 edits=[(PROP,'''        checker.check_id(id)?;
        checker.specialty_set.update_from_path(&ty.path);
''','''        checker.check_id(id)?;
        checker.specialty_set.compact_at = None;
        checker.specialty_set.update_from_path(&ty.path);
''')],
 demo=USE+'''
fn main() {
    let t = prim(P::U32);
    let mut k = Checker::new();
    k.specialty_set.compact_at = Some(3);
    assert_eq!(k.update_for_ty(&t, 0).unwrap().specialty_set.compact_at, Some(3));
}'''),
dict(id='compact-mark-hinted', property='C24',
 needs='a type refused in compacts, below a compact mark and a hint',
 breaks='the refusal is skipped when there is a hint',
 edits=[(PROP,'''        if let Some(id) = self.compact_at {
            Err(RegistryInternalError::UnexpectedCompactInsides { id })''','''        if let (Some(id), Hint::None) = (self.compact_at, self.hint) {
            Err(RegistryInternalError::UnexpectedCompactInsides { id })''')],
 demo=USE+'''
fn main() {
    let mut k = Checker::new();
    k.specialty_set.compact_at = Some(3);
    k.specialty_set.hint = Hint::FieldBalance;
    assert!(k.reject_compact().is_err());
}'''),
dict(id='flat-docs-lines', property='C24',
 needs='type documentation of several lines, flattened',
 breaks='only the first line is kept in the flat form; printing uses the whole',
 edits=[(CARDS,'''                Some(self.docs.to_owned())
            }
        };
        let path_flat''','''                self.docs.lines().next().map(|x| x.to_owned())
            }
        };
        let path_flat''')],
 demo='''
fn main() {
    let i = Info::from_ty(&docs(prim(P::U8), &["a", "b"]));
    assert_eq!(i.flatten().docs.unwrap(), "a\\nb");
}'''),
dict(id='prim-spec-name-only', property='C24',
 needs='a text decoded under a spec version hint, as a primitive on its own',
 breaks='a text with any spec hint is labelled as spec name',
 edits=[(IND,'''            Hint::FieldSpecName => SpecialtyStr::SpecName,''','''            Hint::FieldSpecName | Hint::FieldSpecVersion => SpecialtyStr::SpecName,''')],
 demo='''
fn main() {
    assert_eq!(Hint::FieldSpecVersion.string(), SpecialtyStr::None);
}'''),
dict(id='cycle-recent', property='C24',
 needs='more than eight types passed, and the first met again',
 breaks='only the last eight types passed are compared',
 edits=[(PROP,'''        if self.cycle_check.contains(&id) {''','''        if self.cycle_check.iter().rev().take(8).any(|x| *x == id) {''')],
 demo=USE+'''
fn main() {
    let mut k = Checker::new();
    for i in 0..12 { k.check_id(i).unwrap(); }
    assert!(k.check_id(0).is_err());
}'''),
]
