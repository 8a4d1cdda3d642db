//! Observable values of the library, written down as the specification's
//! tokens (spec/Parser.tla, "Tokens") in JSON.
use external_memory_tools::{BufferError, ExternalMemory};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::error::*;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger};
use substrate_parser::storage_data::{Hash, KeyData, KeyPart};
use substrate_parser::traits::AsMetadata;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u))
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
pub fn jbytes(b: &[u8]) -> String {
    jlist(b, |x| x.to_string())
}
pub fn jopt(s: &Option<String>) -> String {
    match s {
        None => "[]".into(),
        Some(a) => format!("[{}]", jstr(a)),
    }
}
/// TLC numbers have 31 bits; anything larger is wrong anyway
pub fn jint(n: u64) -> u64 {
    n.min(0x7fff_ffff)
}
pub fn jpair(n: u64) -> String {
    format!("[{},{}]", jint(n / 65536), n % 65536)
}

pub const WILD: &str = "[{\"d\":\"?\",\"p\":[]}]";

#[derive(Default)]
pub struct Toks(pub Vec<String>);

#[allow(clippy::too_many_arguments)]
impl Toks {
    fn tok(&mut self, k: &str, n: usize, s: &str, t: &str, d: &str, v: &str, sp: &str, i: &str, e: &str) {
        self.0.push(format!(
            "{{\"k\":\"{k}\",\"n\":{n},\"s\":{},\"t\":{t},\"d\":{},\"v\":{v},\"sp\":\"{sp}\",\"i\":{i},\"e\":{e}}}",
            jstr(s),
            jstr(d)
        ))
    }
    pub fn part(&mut self, name: &str, docs: &str) {
        self.tok("part", 0, name, "[]", docs, "[]", "", "[]", "[]")
    }
    fn leaf(&mut self, ty: &str, v: &[u8], sp: &str, i: &str) {
        self.tok("leaf", 0, ty, "[]", "", &jbytes(v), sp, i, "[]")
    }
    fn bits(&mut self, ty: &str, v: Vec<bool>, i: &str) {
        let b: Vec<u8> = v.into_iter().map(|x| x as u8).collect();
        self.leaf(&format!("BitVec{ty}"), &b, "", i)
    }
    fn fields(&mut self, fields: &[FieldData]) {
        for f in fields {
            let tn = jopt(&f.type_name);
            self.tok("field", 0, "", &jopt(&f.field_name), &f.field_docs, &tn, "", "[]", "[]");
            self.ext(&f.data)
        }
    }
    fn pallet(&mut self, kind: &str, p: &PalletSpecificData, i: &str) {
        self.tok(
            kind,
            p.fields.len(),
            &p.variant_name,
            &format!("[{}]", jstr(&p.pallet_name)),
            &p.variant_docs,
            "[]",
            "",
            i,
            &format!("[{}]", info(&p.pallet_info)),
        );
        self.fields(&p.fields)
    }
    pub fn call(&mut self, c: &Call) {
        self.pallet("call", &c.0, WILD)
    }
    pub fn ext(&mut self, x: &ExtendedData) {
        self.data(&x.data, &infos(&x.info))
    }
    fn seq(&mut self, n: usize, i: &str, e: &str) {
        self.tok("seq", n, "", "[]", "", "[]", "", i, e)
    }
    fn end(&mut self, w: &str, e: &str) {
        self.tok("end", 0, w, "[]", "", "[]", "", "[]", e)
    }
    pub fn data(&mut self, d: &ParsedData, i: &str) {
        macro_rules! bv {
            ($v:expr, $n:literal) => {
                self.bits($n, $v.iter().map(|b| *b).collect(), i)
            };
        }
        macro_rules! num {
            ($v:expr, $n:literal) => {
                self.leaf($n, &$v.to_le_bytes(), "", i)
            };
        }
        macro_rules! unum {
            ($v:expr, $s:expr, $n:literal) => {
                self.leaf($n, &$v.to_le_bytes(), uspec($s), i)
            };
        }
        macro_rules! per {
            ($v:expr, $n:literal) => {
                self.leaf($n, &$v.deconstruct().to_le_bytes(), "", i)
            };
        }
        match d {
            ParsedData::BitVecU8Lsb0(v) => bv!(v, "U8Lsb0"),
            ParsedData::BitVecU16Lsb0(v) => bv!(v, "U16Lsb0"),
            ParsedData::BitVecU32Lsb0(v) => bv!(v, "U32Lsb0"),
            ParsedData::BitVecU64Lsb0(v) => bv!(v, "U64Lsb0"),
            ParsedData::BitVecU8Msb0(v) => bv!(v, "U8Msb0"),
            ParsedData::BitVecU16Msb0(v) => bv!(v, "U16Msb0"),
            ParsedData::BitVecU32Msb0(v) => bv!(v, "U32Msb0"),
            ParsedData::BitVecU64Msb0(v) => bv!(v, "U64Msb0"),
            ParsedData::BlockHash(h) => self.leaf("H256", &h.0, "BlockHash", i),
            ParsedData::GenesisHash(h) => self.leaf("H256", &h.0, "GenesisHash", i),
            ParsedData::H256(h) => self.leaf("H256", &h.0, "None", i),
            ParsedData::H160(h) => self.leaf("H160", &h.0, "", i),
            ParsedData::H512(h) => self.leaf("H512", &h.0, "", i),
            ParsedData::Id(a) => self.leaf("AccountId32", &a.0, "", i),
            ParsedData::Call(c) => self.pallet("call", &c.0, i),
            ParsedData::Event(c) => self.pallet("event", &c.0, i),
            ParsedData::Composite(f) => {
                self.tok("comp", f.len(), "", "[]", "", "[]", "", i, "[]");
                self.fields(f)
            }
            ParsedData::Tuple(els) => {
                self.tok("tuple", els.len(), "", "[]", "", "[]", "", i, "[]");
                for x in els {
                    self.ext(x)
                }
            }
            ParsedData::Variant(v) => {
                self.tok("var", v.fields.len(), &v.variant_name, "[]", &v.variant_docs, "[]", "", i, "[]");
                self.fields(&v.fields)
            }
            ParsedData::EmptyEnum => self.tok("emptyenum", 0, "", "[]", "", "[]", "", i, "[]"),
            ParsedData::Era(e) => {
                let v = era(e);
                self.tok("leaf", 0, "Era", "[]", "", &v, "", i, "[]")
            }
            ParsedData::PerU16(v) => per!(v, "PerU16"),
            ParsedData::Percent(v) => per!(v, "Percent"),
            ParsedData::Permill(v) => per!(v, "Permill"),
            ParsedData::Perbill(v) => per!(v, "Perbill"),
            ParsedData::Perquintill(v) => per!(v, "Perquintill"),
            ParsedData::PrimitiveBool(v) => self.leaf("Bool", &[*v as u8], "", i),
            ParsedData::PrimitiveChar(v) => num!((*v as u32), "Char"),
            ParsedData::PrimitiveI8(v) => num!(v, "I8"),
            ParsedData::PrimitiveI16(v) => num!(v, "I16"),
            ParsedData::PrimitiveI32(v) => num!(v, "I32"),
            ParsedData::PrimitiveI64(v) => num!(v, "I64"),
            ParsedData::PrimitiveI128(v) => num!(v, "I128"),
            ParsedData::PrimitiveI256(v) => {
                let mut b = v.to_signed_bytes_le();
                let fill = if b.last().map_or(false, |x| x & 0x80 != 0) { 0xff } else { 0 };
                while b.len() < 32 {
                    b.push(fill)
                }
                self.leaf("I256", &b, "", i)
            }
            ParsedData::PrimitiveU256(v) => {
                let mut b = v.to_bytes_le();
                while b.len() < 32 {
                    b.push(0)
                }
                self.leaf("U256", &b, "", i)
            }
            ParsedData::PrimitiveU8 { value, specialty } => unum!(value, specialty, "U8"),
            ParsedData::PrimitiveU16 { value, specialty } => unum!(value, specialty, "U16"),
            ParsedData::PrimitiveU32 { value, specialty } => unum!(value, specialty, "U32"),
            ParsedData::PrimitiveU64 { value, specialty } => unum!(value, specialty, "U64"),
            ParsedData::PrimitiveU128 { value, specialty } => unum!(value, specialty, "U128"),
            ParsedData::PublicEd25519(p) => self.leaf("PublicEd25519", &p.0, "", i),
            ParsedData::PublicSr25519(p) => self.leaf("PublicSr25519", &p.0, "", i),
            ParsedData::PublicEcdsa(p) => self.leaf("PublicEcdsa", &p.0, "", i),
            ParsedData::SignatureEd25519(p) => self.leaf("SignatureEd25519", &p.0, "", i),
            ParsedData::SignatureSr25519(p) => self.leaf("SignatureSr25519", &p.0, "", i),
            ParsedData::SignatureEcdsa(p) => self.leaf("SignatureEcdsa", &p.0, "", i),
            ParsedData::Text { text, specialty } => {
                let sp = match specialty {
                    SpecialtyStr::None => "None",
                    SpecialtyStr::SpecName => "SpecName",
                };
                self.leaf("Text", text.as_bytes(), sp, i)
            }
            ParsedData::SequenceRaw(s) => {
                self.seq(s.data.len(), i, &infos(&s.element_info));
                for x in s.data.iter() {
                    self.data(x, "[]")
                }
                self.end("raw", "[]")
            }
            ParsedData::Sequence(s) => {
                let e = infos(&s.element_info);
                macro_rules! flat {
                    ($v:expr, $n:literal) => {{
                        self.seq($v.len(), i, &e);
                        for x in $v.iter() {
                            self.leaf($n, &x.to_le_bytes(), "None", "[]")
                        }
                        self.end($n, "[]")
                    }};
                }
                match &s.data {
                    Sequence::U8(v) => flat!(v, "U8"),
                    Sequence::U16(v) => flat!(v, "U16"),
                    Sequence::U32(v) => flat!(v, "U32"),
                    Sequence::U64(v) => flat!(v, "U64"),
                    Sequence::U128(v) => flat!(v, "U128"),
                    Sequence::VecU8 { sequence, inner_element_info } => {
                        self.seq(sequence.len(), i, &e);
                        for inner in sequence.iter() {
                            self.seq(inner.len(), "[]", WILD);
                            for x in inner.iter() {
                                self.leaf("U8", &[*x], "None", "[]")
                            }
                            self.end("?", "[]")
                        }
                        self.end("VecU8", &infos(inner_element_info))
                    }
                }
            }
        }
    }
    pub fn key(&mut self, key: &KeyData) {
        match key {
            KeyData::Plain => self.tok("key", 0, "Plain", "[]", "", "[]", "", "[]", "[]"),
            KeyData::SingleHash { content } => {
                self.tok("key", 0, "SingleHash", "[]", "", "[]", "", "[]", "[]");
                self.keypart(content)
            }
            KeyData::TupleHash { content, info: i } => {
                self.tok("key", 0, "TupleHash", "[]", "", "[]", "", &format!("[{}]", info(i)), "[]");
                for p in content {
                    self.keypart(p)
                }
            }
        }
    }
    fn keypart(&mut self, p: &KeyPart) {
        match p {
            KeyPart::Hash(h) => {
                let (name, v): (&str, &[u8]) = match &h.hash {
                    Hash::Blake2_128(a) => ("Blake2_128", a),
                    Hash::Blake2_256(a) => ("Blake2_256", a),
                    Hash::Twox128(a) => ("Twox128", a),
                    Hash::Twox256(a) => ("Twox256", a),
                };
                self.tok("hash", h.type_id as usize, name, "[]", "", &jbytes(v), "", "[]", "[]")
            }
            KeyPart::Parsed(x) => {
                self.part("key", "");
                self.ext(x)
            }
        }
    }
    pub fn extrinsic(&mut self, u: &UncheckedExtrinsic) {
        match u {
            UncheckedExtrinsic::Signed { address, signature, extra, call } => {
                self.part("signed", "");
                self.part("address", "");
                self.ext(address);
                self.part("signature", "");
                self.ext(signature);
                self.part("extra", "");
                self.ext(extra);
                self.part("call", "");
                self.call(call)
            }
            UncheckedExtrinsic::Unsigned { call } => {
                self.part("unsigned", "");
                self.part("call", "");
                self.call(call)
            }
        }
    }
    pub fn json(&self) -> String {
        format!("[{}]", self.0.join(","))
    }
}

pub fn uspec(s: &SpecialtyUnsignedInteger) -> &'static str {
    match s {
        SpecialtyUnsignedInteger::None => "None",
        SpecialtyUnsignedInteger::Balance => "Balance",
        SpecialtyUnsignedInteger::Tip => "Tip",
        SpecialtyUnsignedInteger::TipAsset => "TipAsset",
        SpecialtyUnsignedInteger::Nonce => "Nonce",
        SpecialtyUnsignedInteger::SpecVersion => "SpecVersion",
        SpecialtyUnsignedInteger::TxVersion => "TxVersion",
    }
}
pub fn era(e: &Era) -> String {
    match e {
        Era::Immortal => "[]".into(),
        Era::Mortal(period, phase) => format!("[{period},{phase}]"),
    }
}
fn info(i: &Info) -> String {
    format!("{{\"d\":{},\"p\":{}}}", jstr(&i.docs), jlist(&i.path.segments, |s| jstr(s)))
}
pub fn infos(v: &[Info]) -> String {
    jlist(v, info)
}

/// Error as recorded: wrapper, kind, position or id, numbers, string, words
/// of the printed message.
#[derive(Clone, Default)]
pub struct Rec {
    pub w: String,
    pub k: String,
    pub p: u64,
    pub n: String,
    pub s: String,
    pub words: String,
}
impl Rec {
    pub fn new(k: &str, p: u64) -> Self {
        Rec { k: k.into(), p, n: "[]".into(), ..Default::default() }
    }
    fn nums(mut self, n: String) -> Self {
        self.n = n;
        self
    }
    fn with(mut self, s: String) -> Self {
        self.s = s;
        self
    }
    fn wrap(mut self, w: &str) -> Self {
        self.w = if self.w.is_empty() { w.into() } else { format!("{w}/{}", self.w) };
        self
    }
    pub fn say<D: std::fmt::Display>(mut self, d: &D) -> Self {
        let text = format!("{d}").to_lowercase();
        let words: Vec<&str> =
            text.split(|c: char| !c.is_alphanumeric()).filter(|s| !s.is_empty()).collect();
        self.words = jlist(&words, |w| jstr(w));
        self
    }
    pub fn json(&self) -> String {
        format!(
            "{{\"w\":{},\"k\":{},\"p\":{},\"n\":{},\"s\":{}}}",
            jstr(&self.w), jstr(&self.k), jint(self.p), if self.n.is_empty() { "[]" } else { &self.n }, jstr(&self.s)
        )
    }
}

pub trait Record {
    fn rec(&self) -> Rec;
}
impl Record for RegistryInternalError {
    fn rec(&self) -> Rec {
        use RegistryInternalError::*;
        match self {
            CyclicMetadata { id } => Rec::new("CyclicMetadata", *id as u64),
            ExtrinsicNoCallParam => Rec::new("ExtrinsicNoCallParam", 0),
            NotBitOrderType { id } => Rec::new("NotBitOrderType", *id as u64),
            NotBitStoreType { id } => Rec::new("NotBitStoreType", *id as u64),
            TypeNotResolved { id } => Rec::new("TypeNotResolved", *id as u64),
            UnexpectedCompactInsides { id } => Rec::new("UnexpectedCompactInsides", *id as u64),
            UnexpectedExtrinsicType { extrinsic_ty_id } => Rec::new("UnexpectedExtrinsicType", *extrinsic_ty_id as u64),
        }
    }
}
impl<E: ExternalMemory> Record for RegistryError<E> {
    fn rec(&self) -> Rec {
        match self {
            RegistryError::External(_) => Rec::new("External", 0),
            RegistryError::Internal(i) => i.rec(),
        }
    }
}
impl<E: ExternalMemory> Record for ParserError<E> {
    fn rec(&self) -> Rec {
        match self {
            ParserError::Buffer(BufferError::DataTooShort { position, minimal_length }) => {
                Rec::new("DataTooShort", *position as u64).nums(jpair(*minimal_length as u64))
            }
            ParserError::Buffer(BufferError::External(_)) => Rec::new("External", 0),
            ParserError::Buffer(BufferError::OutOfRange { position, total_length }) => {
                Rec::new("OutOfRange", *position as u64).nums(jpair(*total_length as u64))
            }
            ParserError::Registry(e) => e.rec(),
            ParserError::NoCompact { position } => Rec::new("NoCompact", *position as u64),
            ParserError::SomeDataNotUsedBlob { from } => Rec::new("SomeDataNotUsedBlob", *from as u64),
            ParserError::TypeFailure { position, ty } => {
                Rec::new("TypeFailure", *position as u64).with(ty.to_string())
            }
            ParserError::UnexpectedEnumVariant { position } => {
                Rec::new("UnexpectedEnumVariant", *position as u64)
            }
        }
    }
}
impl Record for MetaVersionErrorPallets {
    fn rec(&self) -> Rec {
        Rec::new(&format!("{self:?}"), 0)
    }
}
impl Record for MetaStructureErrorV14 {
    fn rec(&self) -> Rec {
        use MetaStructureErrorV14::*;
        match self {
            ExtrinsicTypeNotResolved(e) => e.rec().wrap("ExtrinsicTypeNotResolved"),
            UnexpectedExtrinsicType { extrinsic_ty_id } => Rec::new("UnexpectedExtrinsicType", *extrinsic_ty_id as u64),
            Version(e) => e.rec(),
            NoAddressParam => Rec::new("NoAddressParam", 0),
            NoCallParam => Rec::new("NoCallParam", 0),
            NoExtraParam => Rec::new("NoExtraParam", 0),
            NoSignatureParam => Rec::new("NoSignatureParam", 0),
        }
    }
}
impl<E, M> Record for SignableError<E, M>
where
    E: ExternalMemory,
    M: AsMetadata<E>,
    M::MetaStructureError: Record,
{
    fn rec(&self) -> Rec {
        match self {
            SignableError::CutSignable => Rec::new("CutSignable", 0),
            SignableError::ExtensionsList(e) => Rec::new(&format!("{e:?}"), 0),
            SignableError::ImmortalHashMismatch => Rec::new("ImmortalHashMismatch", 0),
            SignableError::MetaStructure(e) => e.rec().wrap("MetaStructure"),
            SignableError::NotACall(id) => Rec::new("NotACall", *id as u64),
            SignableError::Parsing(e) => e.rec().wrap("Parsing"),
            SignableError::SomeDataNotUsedCall { from, to } => {
                Rec::new("SomeDataNotUsedCall", *from as u64).nums(format!("[{}]", jint(*to as u64)))
            }
            SignableError::SomeDataNotUsedExtensions { from } => Rec::new("SomeDataNotUsedExtensions", *from as u64),
            SignableError::WrongGenesisHash { as_decoded, expected } => Rec::new("WrongGenesisHash", 0)
                .with(format!("{}/{}", hex::encode(as_decoded.0), hex::encode(expected.0))),
            SignableError::WrongSpecVersion { as_decoded, in_metadata } => {
                Rec::new("WrongSpecVersion", 0).with(format!("{as_decoded}/{in_metadata}"))
            }
        }
    }
}
impl<E: ExternalMemory> Record for StorageError<E> {
    fn rec(&self) -> Rec {
        match self {
            StorageError::KeyPartHashMismatch => Rec::new("KeyPartHashMismatch", 0),
            StorageError::KeyPartsUnused => Rec::new("KeyPartsUnused", 0),
            StorageError::KeyShorterThanPrefix => Rec::new("KeyShorterThanPrefix", 0),
            StorageError::MultipleHashesNotATuple => Rec::new("MultipleHashesNotATuple", 0),
            StorageError::MultipleHashesNumberMismatch => Rec::new("MultipleHashesNumberMismatch", 0),
            StorageError::ParsingKey(e) => e.rec().wrap("ParsingKey"),
            StorageError::ParsingValue(e) => e.rec().wrap("ParsingValue"),
            StorageError::PlainKeyExceedsPrefix => Rec::new("PlainKeyExceedsPrefix", 0),
        }
    }
}
impl<E, M> Record for UncheckedExtrinsicError<E, M>
where
    E: ExternalMemory,
    M: AsMetadata<E>,
    M::MetaStructureError: Record,
{
    fn rec(&self) -> Rec {
        match self {
            UncheckedExtrinsicError::FormatNoCompact => Rec::new("FormatNoCompact", 0),
            UncheckedExtrinsicError::MetaStructure(e) => e.rec().wrap("MetaStructure"),
            UncheckedExtrinsicError::Parsing(e) => e.rec().wrap("Parsing"),
            UncheckedExtrinsicError::VersionMismatch { version_byte, version } => {
                Rec::new("VersionMismatch", 0).nums(format!("[{version_byte},{version}]"))
            }
            UncheckedExtrinsicError::UnexpectedCallTy { call_ty_id } => Rec::new("UnexpectedCallTy", *call_ty_id as u64),
        }
    }
}
