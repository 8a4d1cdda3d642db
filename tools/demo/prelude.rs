// Shared helpers of the demonstrations: registries, metadata and external memory built by hand.
#![allow(dead_code, unused_imports)]
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher};
use frame_metadata::{v14, v15};
use parity_scale_codec::{Compact, Decode, Encode};
use primitive_types::H256;
use scale_info::interner::UntrackedSymbol;
use scale_info::{
    form::PortableForm, Field, Path, PortableRegistry, PortableType, Type, TypeDef, TypeDefArray,
    TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence,
    TypeDefTuple, TypeDefVariant, TypeParameter, Variant,
};
use std::any::TypeId;
use std::rc::Rc;
use substrate_parser::cards::*;
use substrate_parser::error::*;
use substrate_parser::special_indicators::*;
use substrate_parser::traits::*;
use substrate_parser::*;

type F = Field<PortableForm>;
type V = Variant<PortableForm>;
type T = Type<PortableForm>;
type M = v15::RuntimeMetadataV15;
type M14 = v14::RuntimeMetadataV14;
type Sym = UntrackedSymbol<TypeId>;
fn s(i: u32) -> Sym {
    i.into()
}
fn path(p: &str) -> Path<PortableForm> {
    if p.is_empty() {
        Path::from_segments_unchecked(Vec::<String>::new())
    } else {
        Path::from_segments_unchecked(p.split("::").map(|x| x.to_string()))
    }
}
fn ty(p: &str, d: TypeDef<PortableForm>) -> T {
    Type { path: path(p), type_params: vec![], type_def: d, docs: vec![] }
}
fn docs(mut t: T, d: &[&str]) -> T {
    t.docs = d.iter().map(|x| x.to_string()).collect();
    t
}
fn params(mut t: T, p: &[(&str, u32)]) -> T {
    t.type_params = p
        .iter()
        .map(|(n, i)| TypeParameter { name: n.to_string(), ty: Some(s(*i)) })
        .collect();
    t
}
fn prim(p: TypeDefPrimitive) -> T {
    ty("", TypeDef::Primitive(p))
}
/// A field: name and type name empty when absent.
fn f(name: &str, id: u32, tn: &str) -> F {
    let o = |x: &str| if x.is_empty() { None } else { Some(x.to_string()) };
    Field { name: o(name), ty: s(id), type_name: o(tn), docs: vec![] }
}
fn fdocs(mut x: F, d: &[&str]) -> F {
    x.docs = d.iter().map(|x| x.to_string()).collect();
    x
}
fn comp(p: &str, fields: Vec<F>) -> T {
    ty(p, TypeDef::Composite(TypeDefComposite { fields }))
}
fn v(name: &str, index: u8, fields: Vec<F>) -> V {
    Variant { name: name.to_string(), fields, index, docs: vec![] }
}
fn vdocs(mut x: V, d: &[&str]) -> V {
    x.docs = d.iter().map(|x| x.to_string()).collect();
    x
}
fn enm(p: &str, variants: Vec<V>) -> T {
    ty(p, TypeDef::Variant(TypeDefVariant { variants }))
}
fn seq(i: u32) -> T {
    ty("", TypeDef::Sequence(TypeDefSequence { type_param: s(i) }))
}
fn arr(len: u32, i: u32) -> T {
    ty("", TypeDef::Array(TypeDefArray { len, type_param: s(i) }))
}
fn tup(ids: &[u32]) -> T {
    ty("", TypeDef::Tuple(TypeDefTuple { fields: ids.iter().map(|i| s(*i)).collect() }))
}
fn compact(i: u32) -> T {
    ty("", TypeDef::Compact(TypeDefCompact { type_param: s(i) }))
}
fn bits(store: u32, order: u32) -> T {
    ty(
        "",
        TypeDef::BitSequence(TypeDefBitSequence { bit_store_type: s(store), bit_order_type: s(order) }),
    )
}
fn reg(types: Vec<T>) -> PortableRegistry {
    PortableRegistry {
        types: types
            .into_iter()
            .enumerate()
            .map(|(i, ty)| PortableType { id: i as u32, ty })
            .collect(),
    }
}
/// Decode a whole blob.
fn all(r: &PortableRegistry, id: u32, data: &[u8]) -> Result<ExtendedData, ParserError<()>> {
    decode_all_as_type::<&[u8], (), M>(&s(id), &data, &mut (), r)
}
/// Decode at a position: the result and the position afterwards.
fn at(
    r: &PortableRegistry,
    id: u32,
    data: &[u8],
    pos: usize,
) -> (Result<ExtendedData, ParserError<()>>, usize) {
    let mut p = pos;
    let out = decode_as_type_at_position::<&[u8], (), M>(&s(id), &data, &mut (), r, &mut p);
    (out, p)
}
fn specs() -> ShortSpecs {
    ShortSpecs { base58prefix: 42, decimals: 12, unit: "UNIT".to_string() }
}

/// Registry tail shared by the metadata below: `base` first free id.
/// Types added: +0 u8, +1 u32, +2 str, +3 RuntimeVersion, +4 H256, +5 Era, +6 Vec<u8>, +7 (), +8 u128,
/// +9 Compact<u32>, +10 Compact<u128>.
fn std_types() -> Vec<T> {
    vec![
        prim(TypeDefPrimitive::U8),
        prim(TypeDefPrimitive::U32),
        prim(TypeDefPrimitive::Str),
        comp("sp_version::RuntimeVersion", vec![f("spec_name", 2, ""), f("spec_version", 1, "")]),
        comp("primitive_types::H256", vec![f("", 11, "[u8; 32]")]),
        enm("sp_runtime::generic::era::Era", vec![]),
        seq(0),
        tup(&[]),
        prim(TypeDefPrimitive::U128),
        compact(1),
        compact(8),
        arr(32, 0),
    ]
}
fn ext(identifier: &str, t: u32, a: u32) -> (String, u32, u32) {
    (identifier.to_string(), t, a)
}
fn version_constant() -> Vec<u8> {
    ("chain".to_string(), 7u32).encode()
}
/// V15 metadata over the given types; `version` constant is of type 3.
fn meta15(
    types: Vec<T>,
    call: u32,
    exts: &[(String, u32, u32)],
) -> v15::RuntimeMetadataV15 {
    v15::RuntimeMetadataV15 {
        types: reg(types),
        pallets: vec![v15::PalletMetadata {
            name: "System".to_string(),
            storage: None,
            calls: None,
            event: None,
            constants: vec![v15::PalletConstantMetadata {
                name: "Version".to_string(),
                ty: s(3),
                value: version_constant(),
                docs: vec![],
            }],
            error: None,
            index: 0,
            docs: vec![],
        }],
        extrinsic: v15::ExtrinsicMetadata {
            version: 4,
            address_ty: s(4),
            call_ty: s(call),
            signature_ty: s(4),
            extra_ty: s(7),
            signed_extensions: exts
                .iter()
                .map(|(i, t, a)| v15::SignedExtensionMetadata {
                    identifier: i.clone(),
                    ty: s(*t),
                    additional_signed: s(*a),
                })
                .collect(),
        },
        ty: s(7),
        apis: vec![],
        outer_enums: v15::OuterEnums {
            call_enum_ty: s(call),
            event_enum_ty: s(7),
            error_enum_ty: s(7),
        },
        custom: v15::CustomMetadata { map: Default::default() },
    }
}
/// V14 metadata over the given types; the extrinsic type is `uxt`.
fn meta14(types: Vec<T>, uxt: u32, exts: &[(String, u32, u32)]) -> v14::RuntimeMetadataV14 {
    v14::RuntimeMetadataV14 {
        types: reg(types),
        pallets: vec![v14::PalletMetadata {
            name: "System".to_string(),
            storage: None,
            calls: None,
            event: None,
            constants: vec![v14::PalletConstantMetadata {
                name: "Version".to_string(),
                ty: s(3),
                value: version_constant(),
                docs: vec![],
            }],
            error: None,
            index: 0,
        }],
        extrinsic: v14::ExtrinsicMetadata {
            ty: s(uxt),
            version: 4,
            signed_extensions: exts
                .iter()
                .map(|(i, t, a)| v14::SignedExtensionMetadata {
                    identifier: i.clone(),
                    ty: s(*t),
                    additional_signed: s(*a),
                })
                .collect(),
        },
        ty: s(7),
    }
}
/// The usual checked extensions: era, genesis, spec version.
fn usual_exts() -> Vec<(String, u32, u32)> {
    vec![
        ext("CheckSpecVersion", 7, 1),
        ext("CheckGenesis", 7, 4),
        ext("CheckMortality", 5, 4),
    ]
}
/// Bytes for `usual_exts`: era, then spec version, genesis hash, block hash.
fn usual_ext_bytes(era: &[u8], spec: u32, genesis: [u8; 32], block: [u8; 32]) -> Vec<u8> {
    [era.to_vec(), spec.encode(), genesis.to_vec(), block.to_vec()].concat()
}
fn marked(call: &[u8], exts: &[u8]) -> Vec<u8> {
    [Compact(call.len() as u32).encode(), call.to_vec(), exts.to_vec()].concat()
}

/// External memory: counts accesses and can fail one of them.
#[derive(Debug, Default)]
struct Mem {
    n: usize,
    fail_at: usize,
}
#[derive(Debug, Eq, PartialEq)]
struct MemErr;
impl std::fmt::Display for MemErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bus error")
    }
}
impl ExternalMemory for Mem {
    type ExternalMemoryError = MemErr;
}
impl Mem {
    fn touch(&mut self) -> bool {
        self.n += 1;
        self.n == self.fail_at
    }
}
#[derive(Clone, Debug)]
struct ExtBuf {
    data: Rc<Vec<u8>>,
    len: usize,
}
fn extbuf(d: &[u8]) -> ExtBuf {
    ExtBuf { data: Rc::new(d.to_vec()), len: d.len() }
}
impl AddressableBuffer<Mem> for ExtBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, n: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        if m.touch() {
            return Err(BufferError::External(MemErr));
        }
        if position > self.len {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        match position.checked_add(n) {
            Some(end) if end <= self.len => Ok(self.data[position..end].to_vec()),
            _ => Err(BufferError::DataTooShort { position, minimal_length: n }),
        }
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len > self.len {
            return Err(BufferError::DataTooShort { position: 0, minimal_length: new_len });
        }
        Ok(ExtBuf { data: self.data.clone(), len: new_len })
    }
}
#[derive(Clone, Debug)]
struct ExtReg(Rc<PortableRegistry>);
impl ResolveType<Mem> for ExtReg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<T, RegistryError<Mem>> {
        if m.touch() {
            return Err(RegistryError::External(MemErr));
        }
        match self.0.resolve(id) {
            Some(t) => Ok(t.to_owned()),
            None => Err(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id })),
        }
    }
}
#[derive(Debug)]
struct ExtMeta {
    inner: M,
    reg: ExtReg,
}
fn extmeta(m: &M) -> ExtMeta {
    ExtMeta { inner: m.clone(), reg: ExtReg(Rc::new(m.types.clone())) }
}
impl AsMetadata<Mem> for ExtMeta {
    type TypeRegistry = ExtReg;
    type MetaStructureError = <M as AsMetadata<()>>::MetaStructureError;
    fn types(&self) -> ExtReg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, Self::MetaStructureError> {
        <M as AsMetadata<()>>::spec_name_version(&self.inner)
    }
    fn call_ty(&self) -> Result<Sym, Self::MetaStructureError> {
        <M as AsMetadata<()>>::call_ty(&self.inner)
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, Self::MetaStructureError> {
        <M as AsMetadata<()>>::signed_extensions(&self.inner)
    }
}
impl AsCompleteMetadata<Mem> for ExtMeta {
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, Self::MetaStructureError> {
        <M as AsCompleteMetadata<()>>::extrinsic_type_params(&self.inner)
    }
    fn extrinsic_version(&self) -> Result<u8, Self::MetaStructureError> {
        <M as AsCompleteMetadata<()>>::extrinsic_version(&self.inner)
    }
}
use TypeDefPrimitive as P;

