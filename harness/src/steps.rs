//! The public steps of the parser, called on their own.
//! What comes of each is written as the specification (spec/Steps.tla) has it.
use crate::aux::Aux;
use crate::tokens::*;
use crate::{Case, Out};
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, Type, TypeDef};
use std::any::TypeId;
use substrate_parser::cards::{ExtendedData, Info};
use substrate_parser::decoding_sci::*;
use substrate_parser::error::*;
use substrate_parser::propagated::*;
use substrate_parser::special_indicators::*;
use substrate_parser::traits::AsCompleteMetadata;
use substrate_parser::ResolveType;

impl Aux {
    fn set(&self) -> SpecialtySet {
        let mut set = SpecialtySet::new();
        set.compact_at = self.cmp;
        set.hint = hint_of(&self.hint);
        set
    }
    fn checker(&self) -> Checker {
        let mut checker = Checker::new();
        checker.specialty_set = self.set();
        checker.cycle_check = self.ids.clone();
        checker
    }
}

const HINTS: [(&str, Hint); 13] = [
    ("None", Hint::None),
    ("CheckSpecVersion", Hint::CheckSpecVersion),
    ("CheckTxVersion", Hint::CheckTxVersion),
    ("CheckGenesis", Hint::CheckGenesis),
    ("CheckMortality", Hint::CheckMortality),
    ("CheckNonce", Hint::CheckNonce),
    ("ChargeAssetTxPayment", Hint::ChargeAssetTxPayment),
    ("ChargeTransactionPayment", Hint::ChargeTransactionPayment),
    ("FieldBalance", Hint::FieldBalance),
    ("FieldNonce", Hint::FieldNonce),
    ("FieldSpecName", Hint::FieldSpecName),
    ("FieldSpecVersion", Hint::FieldSpecVersion),
    ("FieldTxVersion", Hint::FieldTxVersion),
];
fn hint_of(name: &str) -> Hint {
    HINTS.iter().find(|x| x.0 == name).expect("hint").1
}
fn hint_name(h: &Hint) -> &'static str {
    HINTS.iter().find(|x| std::mem::discriminant(&x.1) == std::mem::discriminant(h)).expect("hint").0
}
fn checker(k: &Checker) -> String {
    let mut ids = k.cycle_check.clone();
    ids.sort();
    ids.dedup();
    format!(
        "{},{},{}",
        jstr(hint_name(&k.specialty_set.hint)),
        k.specialty_set.compact_at.map_or("-1".to_string(), |x| x.to_string()),
        jlist(&ids, |x| x.to_string())
    )
}
fn hinted(t: &Type<PortableForm>) -> &'static str {
    use SpecialtyTypeHinted::*;
    match SpecialtyTypeHinted::from_type(t) {
        None => "None",
        AccountId32 => "AccountId32",
        Era => "Era",
        H160 => "H160",
        H256 => "H256",
        H512 => "H512",
        MultiSignature => "MultiSignature",
        PalletSpecific(PalletSpecificItem::Call) => "Call",
        PalletSpecific(PalletSpecificItem::Event) => "Event",
        Perbill => "Perbill",
        Percent => "Percent",
        Permill => "Permill",
        Perquintill => "Perquintill",
        PerU16 => "PerU16",
        PublicEd25519 => "PublicEd25519",
        PublicSr25519 => "PublicSr25519",
        PublicEcdsa => "PublicEcdsa",
        SignatureEd25519 => "SignatureEd25519",
        SignatureSr25519 => "SignatureSr25519",
        SignatureEcdsa => "SignatureEcdsa",
        UncheckedExtrinsic => "UncheckedExtrinsic",
    }
}
fn checked(s: &SpecialtyTypeChecked) -> &'static str {
    use SpecialtyTypeChecked::*;
    match s {
        None => "None",
        AccountId32 => "AccountId32",
        Era => "Era",
        H160 => "H160",
        H256 => "H256",
        H512 => "H512",
        PalletSpecific { item: PalletSpecificItem::Call, .. } => "Call",
        PalletSpecific { item: PalletSpecificItem::Event, .. } => "Event",
        Perbill => "Perbill",
        Percent => "Percent",
        Permill => "Permill",
        Perquintill => "Perquintill",
        PerU16 => "PerU16",
        PublicEd25519 => "PublicEd25519",
        PublicSr25519 => "PublicSr25519",
        PublicEcdsa => "PublicEcdsa",
        SignatureEd25519 => "SignatureEd25519",
        SignatureSr25519 => "SignatureSr25519",
        SignatureEcdsa => "SignatureEcdsa",
    }
}
fn signature(s: &SignatureIndicator) -> &'static str {
    match s {
        SignatureIndicator::None => "None",
        SignatureIndicator::Ecdsa => "SignatureEcdsa",
        SignatureIndicator::Ed25519 => "SignatureEd25519",
        SignatureIndicator::Sr25519 => "SignatureSr25519",
    }
}
fn known_hash(s: &SpecialtyH256) -> &'static str {
    match s {
        SpecialtyH256::None => "None",
        SpecialtyH256::GenesisHash => "GenesisHash",
        SpecialtyH256::BlockHash => "BlockHash",
    }
}
fn known_text(s: &SpecialtyStr) -> &'static str {
    match s {
        SpecialtyStr::None => "None",
        SpecialtyStr::SpecName => "SpecName",
    }
}

pub fn run_step<B, E, M>(c: &Case, bufs: &[B], em: &mut E, meta: &M) -> Option<Out>
where
    B: AddressableBuffer<E>,
    E: ExternalMemory,
    M: AsCompleteMetadata<E>,
{
    let reg = meta.types();
    let symbol: UntrackedSymbol<TypeId> = c.ty.into();
    let mut position = c.pos;
    macro_rules! the_type {
        () => {
            match reg.resolve_ty(c.ty, em) {
                Ok(t) => t,
                Err(e) => return Some(Out::err(&e)),
            }
        };
    }
    Some(match c.entry.as_str() {
        "prim" => {
            let t = the_type!();
            let TypeDef::Primitive(p) = &t.type_def else { panic!("no primitive") };
            match decode_type_def_primitive::<B, E>(p, &bufs[0], em, &mut position, c.aux.set()) {
                Ok(data) => {
                    let mut o = Out::ok().at(position);
                    o.toks.ext(&ExtendedData { data, info: Vec::new() });
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "dwt" => {
            let propagated = Propagated::with_checker(c.aux.checker());
            let ty = if c.pos % 2 == 0 {
                Ty::Resolved(ResolvedTy { ty: the_type!(), id: c.ty })
            } else {
                Ty::Symbol(&symbol)
            };
            match decode_with_type::<B, E, M>(&ty, &bufs[0], em, &mut position, &reg, propagated) {
                Ok(x) => {
                    let mut o = Out::ok().at(position);
                    o.toks.ext(&x);
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "pick" => {
            let t = the_type!();
            let TypeDef::Variant(v) = &t.type_def else { panic!("no enum") };
            match pick_variant::<B, E>(&v.variants, &bufs[0], em, position) {
                Ok(x) => {
                    let at = v.variants.iter().position(|y| std::ptr::eq(x, y)).expect("of the list") + 1;
                    Out::ok().at(position).x(format!("[{at}]"))
                }
                Err(e) => Out::err(&e),
            }
        }
        "bvp" => {
            macro_rules! run {
                ($t:ty) => {
                    match BitVecPositions::new::<$t, B, E>(&bufs[0], em, position) {
                        Ok(v) => Out::ok().at(position).x(format!("[{}]", jpair(v.bitvec_end as u64))),
                        Err(e) => Out::err(&e),
                    }
                };
            }
            match c.ty {
                1 => run!(u8),
                2 => run!(u16),
                4 => run!(u32),
                _ => run!(u64),
            }
        }
        "husk" => match husk_type::<E, M>(&symbol, &reg, em, c.aux.checker()) {
            Ok(h) => {
                let same = match reg.resolve_ty(h.id, em) {
                    Ok(t) => t == h.ty,
                    Err(e) => return Some(Out::err(&e)),
                };
                Out::ok().at(position).x(format!(
                    "[{},{same},{},{}]",
                    h.id, infos(&h.info), checker(&h.checker)
                ))
            }
            Err(e) => Out::err(&e),
        },
        "order" => {
            let t = the_type!();
            let TypeDef::BitSequence(b) = &t.type_def else { panic!("no bit sequence") };
            match find_bit_order_ty::<E, M>(b, c.ty, em, &reg) {
                Ok(FoundBitOrder::Lsb0) => Out::ok().at(position).x("[\"Lsb0\"]".into()),
                Ok(FoundBitOrder::Msb0) => Out::ok().at(position).x("[\"Msb0\"]".into()),
                Err(e) => Out::err(&e),
            }
        }
        // what a type is known as, by its path and with the data
        "spec" => {
            let t = the_type!();
            let s = SpecialtyTypeChecked::from_type::<B, E, M>(&t, &bufs[0], em, &mut position, &reg);
            let more = match &s {
                SpecialtyTypeChecked::PalletSpecific {
                    pallet_name, pallet_info, pallet_variant, item_ty_id, variants, ..
                } => format!(
                    ",{},{},{},{item_ty_id},{}",
                    jstr(pallet_name), infos(std::slice::from_ref(pallet_info)), jstr(&pallet_variant.name), jlist(variants, |v| jstr(&v.name))
                ),
                _ => String::new(),
            };
            Out::ok().at(position).x(format!("[{},{}{more}]", jstr(hinted(&t)), jstr(checked(&s))))
        }
        // field number c.pos of the type, and the state it is decoded in
        "fld" => {
            let t = the_type!();
            let TypeDef::Composite(x) = &t.type_def else { panic!("no struct") };
            let f = &x.fields[c.pos];
            match Propagated::for_field(&c.aux.checker(), f) {
                Ok(p) => {
                    let again = p.info.is_empty() && p.compact_at() == p.checker.specialty_set.compact_at;
                    let sig = SignatureIndicator::from_field::<E, M>(f, em, &reg);
                    Out::ok().x(format!(
                        "[{},{},{},{again}]",
                        checker(&p.checker), jstr(hint_name(&Hint::from_field(f))), jstr(signature(&sig))
                    ))
                }
                Err(e) => Out::err(&e),
            }
        }
        "fty" => {
            let t = the_type!();
            match Propagated::for_ty(&c.aux.checker(), &t, c.ty) {
                Ok(p) => {
                    let again = p.info.is_empty() && p.compact_at() == p.checker.specialty_set.compact_at;
                    Out::ok().x(format!("[{},{},{again}]", checker(&p.checker), jstr(hint_name(&Hint::from_path(&t.path)))))
                }
                Err(e) => Out::err(&e),
            }
        }
        // a hint by itself
        "hint" => {
            let h = hint_of(&c.aux.hint);
            let mut k = c.aux.checker();
            let mut p = Propagated::with_checker(c.aux.checker());
            let set = c.aux.set();
            let refused = |r: Result<(), RegistryInternalError>| match r {
                Ok(()) => "-1".to_string(),
                Err(e) => e.rec().p.to_string(),
            };
            let all = [refused(set.reject_compact()), refused(k.reject_compact()), refused(p.reject_compact())];
            k.forget_hint();
            p.forget_hint();
            let agree = all[0] == all[1]
                && all[1] == all[2]
                && uspec(&h.unsigned_integer()) == uspec(&set.unsigned_integer())
                && known_hash(&h.hash256()) == known_hash(&set.hash256())
                && checker(&k) == checker(&p.checker);
            let first = format!(
                "{},{},{},{},{agree},{}",
                jstr(uspec(&set.unsigned_integer())), jstr(known_text(&h.string())), jstr(known_hash(&set.hash256())), all[0], checker(&k)
            );
            k.drop_cycle_check();
            Out::ok().x(format!("[{first},{}]", checker(&k)))
        }
        // what extension number c.pos of the metadata starts with
        "exth" => match meta.signed_extensions() {
            Ok(v) => {
                let p = Propagated::from_ext_meta(&v[c.pos]);
                Out::ok().x(format!("[{},{}]", checker(&p.checker), infos(&p.info)))
            }
            Err(_) => panic!("extensions"),
        },
        "info" => {
            let t = the_type!();
            let i = Info::from_ty(&t);
            let f = i.flatten();
            let mut p = Propagated::new();
            p.add_info(&i);
            p.add_info_slice(&[i.clone(), i.clone()]);
            Out::ok().x(format!(
                "[{},{},{},{},{}]",
                infos(std::slice::from_ref(&i)), i.is_empty(), jopt(&f.docs), jopt(&f.path_flat), infos(&p.info)
            ))
        }
        _ => return None,
    })
}
