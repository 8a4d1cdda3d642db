//! Runs the library on cases and records what is observable, in the
//! vocabulary of the specification.
//!
//! Input lines:
//!   F <path>         metadata, hex in a file ("meta" + version + body)
//!   M <hex>          metadata, hex
//!   C <id> <m> <entry> <pos> <ty> <gh|-> <st|-> <buf,buf|-> <flags|->
//! Modes: "dump" prints the metadata, "run" the cases with outcomes, "history"
//! the cases again and again in other orders and threads: every outcome seen.
mod history;
mod dump;
mod mem;
mod aux;
#[cfg(feature = "steps")]
mod steps;
mod tokens;

use external_memory_tools::{AddressableBuffer, ExternalMemory};
use frame_metadata::v14::{
    RuntimeMetadataV14, StorageEntryMetadata, StorageEntryModifier, StorageEntryType, StorageHasher,
};
use frame_metadata::v15::RuntimeMetadataV15;
use frame_metadata::{RuntimeMetadata, RuntimeMetadataPrefixed};
use mem::*;
use parity_scale_codec::{Decode, Encode};
use primitive_types::H256;
use scale_info::{form::PortableForm, interner::UntrackedSymbol};
use std::any::TypeId;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::{ExtendedCard, ParserCard};
use substrate_parser::compacts::get_compact;
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::storage_data::process_key_mapped;
use substrate_parser::*;
use tokens::*;

pub struct Storage {
    plain: bool,
    hashers: Vec<String>,
    key: u32,
    val: u32,
    docs: Vec<String>,
}
pub struct Case {
    id: String,
    m: usize,
    entry: String,
    pos: usize,
    ty: u32,
    gh: Option<[u8; 32]>,
    st: Option<Storage>,
    bufs: Vec<Vec<u8>>,
    flags: Vec<String>,
    aux: aux::Aux,
}
pub enum Meta {
    V14(RuntimeMetadataV14),
    V15(RuntimeMetadataV15),
}

/// How values are to be printed as cards.
pub struct CardSpec {
    specs: ShortSpecs,
    name: String,
    balance: bool,
}

#[derive(Default)]
pub struct Out {
    st: String,
    e: Rec,
    toks: Toks,
    pos: usize,
    cst: String,
    ce: Rec,
    x: String,
    cards: Option<Vec<String>>,
}
impl Out {
    fn ok() -> Self {
        Out { st: "ok".into(), ..Default::default() }
    }
    fn err<R: Record + std::fmt::Display>(e: &R) -> Self {
        Out { st: "err".into(), e: e.rec().say(e), ..Default::default() }
    }
    fn word(st: &str) -> Self {
        Out { st: st.into(), ..Default::default() }
    }
    fn x(mut self, x: String) -> Self {
        self.x = x;
        self
    }
    fn at(mut self, pos: usize) -> Self {
        self.pos = pos;
        self
    }
    fn json(&self) -> String {
        let words = if self.st == "err" { &self.e.words } else { &self.ce.words };
        let cards = match &self.cards {
            None => "[]".to_string(),
            Some(c) => format!("[[{}]]", c.join(",")),
        };
        format!(
            "{{\"st\":\"{}\",\"e\":{},\"toks\":{},\"pos\":{},\"cst\":\"{}\",\"ce\":{},\"x\":{},\"words\":{},\"cards\":{}}}",
            self.st, self.e.json(), self.toks.json(), jint(self.pos as u64), self.cst, self.ce.json(),
            if self.x.is_empty() { "[]" } else { &self.x },
            if words.is_empty() { "[]" } else { words }, cards
        )
    }
}

fn sym(id: u32) -> UntrackedSymbol<TypeId> {
    id.into()
}
fn hasher(s: &str) -> StorageHasher {
    match s {
        "Blake2_128" => StorageHasher::Blake2_128,
        "Blake2_256" => StorageHasher::Blake2_256,
        "Blake2_128Concat" => StorageHasher::Blake2_128Concat,
        "Twox128" => StorageHasher::Twox128,
        "Twox256" => StorageHasher::Twox256,
        "Twox64Concat" => StorageHasher::Twox64Concat,
        "Identity" => StorageHasher::Identity,
        _ => panic!("hasher {s}"),
    }
}
/// The key of an address, if the picture beside it (where there is one) is of that key.
fn drawn_for(address: &str, picture: Option<&[u8]>) -> String {
    let mut n = vec![0u8];
    for c in address.bytes() {
        let digit = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".iter().position(|x| *x == c);
        let mut carry = match digit {
            Some(d) => d as u32,
            None => return "?".into(),
        };
        for x in n.iter_mut() {
            carry += *x as u32 * 58;
            *x = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            n.push(carry as u8);
            carry >>= 8;
        }
    }
    while n.last() == Some(&0) {
        n.pop();
    }
    n.extend(address.bytes().take_while(|c| *c == b'1').map(|_| 0));
    n.reverse();
    // prefix of one or two bytes, the key, a checksum of two bytes
    let start = if n.first().map(|x| *x < 64).unwrap_or(false) { 1 } else { 2 };
    if n.len() < start + 2 {
        return "?".into();
    }
    let key = &n[start..n.len() - 2];
    if picture.map(|p| plot_icon::generate_png_scaled_default(key) == p).unwrap_or(true) {
        hex::encode(key)
    } else {
        "?".into()
    }
}
fn cards(v: &[ExtendedCard]) -> Vec<String> {
    v.iter()
        .map(|c| {
            let x = match &c.parser_card {
                ParserCard::SequenceU8 { hex, .. } => hex.clone(),
                ParserCard::Id(i)
                | ParserCard::PublicEd25519(i)
                | ParserCard::PublicSr25519(i)
                | ParserCard::PublicEcdsa(i) => {
                    #[cfg(feature = "std")]
                    let picture = Some(&i.identicon[..]);
                    #[cfg(not(feature = "std"))]
                    let picture = None;
                    drawn_for(&i.base58, picture)
                }
                _ => String::new(),
            };
            format!(
                "{{\"i\":{},\"c\":{},\"d\":{},\"x\":{}}}",
                c.indent, jstr(&c.show()), jstr(&c.show_with_docs()), jstr(&x)
            )
        })
        .collect()
}

/// The result of decoding, as the library's entry point gives it.
fn run_case<B, E, M>(c: &Case, bufs: &[B], em: &mut E, meta: &M, card: Option<&CardSpec>) -> Out
where
    B: AddressableBuffer<E>,
    E: ExternalMemory,
    M: traits::AsCompleteMetadata<E>,
    M::MetaStructureError: Record,
{
    let gh = c.gh.map(H256);
    let mut position = c.pos;
    match c.entry.as_str() {
        "at" | "all" => {
            let ty = sym(c.ty);
            let reg = meta.types();
            let r = if c.entry == "at" {
                decode_as_type_at_position::<B, E, M>(&ty, &bufs[0], em, &reg, &mut position)
            } else {
                position = bufs[0].total_len();
                decode_all_as_type::<B, E, M>(&ty, &bufs[0], em, &reg)
            };
            match r {
                Ok(x) => {
                    let mut o = Out::ok().at(position);
                    o.toks.ext(&x);
                    o.cards = card.map(|k| {
                        let mut all = cards(&x.card(0, k.balance, &k.specs, &k.name));
                        all.push(format!(
                            "{{\"i\":-1,\"c\":{},\"d\":{},\"x\":\"\"}}",
                            jstr(&x.show(0, k.balance, &k.specs, &k.name)),
                            jstr(&x.show_with_docs(0, k.balance, &k.specs, &k.name))
                        ));
                        all
                    });
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "cmp" => {
            macro_rules! run {
                ($t:ty) => {
                    match get_compact::<$t, B, E>(&bufs[0], em, &mut position) {
                        Ok(v) => Out::ok().at(position).x(format!("[{}]", jbytes(&v.to_le_bytes()))),
                        Err(e) => Out::err(&e),
                    }
                };
            }
            match c.ty {
                1 => run!(u8),
                2 => run!(u16),
                4 => run!(u32),
                8 => run!(u64),
                _ => run!(u128),
            }
        }
        #[cfg(substrate_parser_verif)]
        "bit32" => {
            macro_rules! run {
                ($f:path) => {
                    match $f(&bufs[0], em, &mut position) {
                        Ok(v) => {
                            let bits: Vec<u8> = v.iter().map(|b| *b as u8).collect();
                            Out::ok().at(position).x(format!("[{}]", jbytes(&bits)))
                        }
                        Err(e) => Out::err(&e),
                    }
                };
            }
            if c.ty == 0 {
                run!(decoding_sci::verif_patched_bitvec_u64_lsb0)
            } else {
                run!(decoding_sci::verif_patched_bitvec_u64_msb0)
            }
        }
        "mver" => match meta.spec_name_version() {
            Ok(s) => Out::ok().x(format!("[{},{}]", jstr(&s.printed_spec_version), jbytes(s.spec_name.as_bytes()))),
            Err(e) => Out { st: "err".into(), e: e.rec().say(&e), ..Default::default() },
        },
        "mcall" => match meta.call_ty() {
            Ok(t) => Out::ok().x(format!("[{}]", t.id)),
            Err(e) => Out { st: "err".into(), e: e.rec().say(&e), ..Default::default() },
        },
        "mparams" => match meta.extrinsic_type_params() {
            Ok(p) => match meta.extrinsic_version() {
                Ok(v) => Out::ok().x(format!(
                    "[{},{},{},{},{v}]",
                    p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id
                )),
                Err(e) => Out { st: "err".into(), e: e.rec().say(&e), ..Default::default() },
            },
            Err(e) => Out { st: "err".into(), e: e.rec().say(&e), ..Default::default() },
        },
        "mexts" => match meta.signed_extensions() {
            Ok(v) => Out::ok().x(jlist(&v, |x| {
                format!("[{},{},{}]", jstr(&x.identifier), x.ty.id, x.additional_signed.id)
            })),
            Err(e) => Out { st: "err".into(), e: e.rec().say(&e), ..Default::default() },
        },
        "tx" => match parse_transaction::<B, E, M>(&bufs[0], em, meta, gh) {
            Ok(t) => {
                let mut o = Out::ok();
                for x in t.extensions.iter() {
                    o.toks.part("ext", "");
                    o.toks.ext(x)
                }
                match &t.call_result {
                    Ok(call) => {
                        o.cst = "ok".into();
                        o.toks.part("call", "");
                        o.toks.call(call)
                    }
                    Err(e) => {
                        o.cst = "err".into();
                        o.ce = e.rec().say(e)
                    }
                }
                o.cards = card.map(|k| {
                    let t = t.card(&k.specs, &k.name);
                    let mut all = cards(&t.extensions);
                    if let Ok(c) = &t.call_result {
                        all.extend(cards(c))
                    }
                    all
                });
                o
            }
            Err(e) => Out::err(&e),
        },
        "txu" => match parse_transaction_unmarked::<B, E, M>(&bufs[0], em, meta, gh) {
            Ok(t) => {
                let mut o = Out::ok();
                o.toks.part("call", "");
                o.toks.call(&t.call);
                for x in t.extensions.iter() {
                    o.toks.part("ext", "");
                    o.toks.ext(x)
                }
                o.cards = card.map(|k| {
                    let t = t.card(&k.specs, &k.name);
                    let mut all = cards(&t.call);
                    all.extend(cards(&t.extensions));
                    all
                });
                o
            }
            Err(e) => Out::err(&e),
        },
        "call" | "dcall" => {
            let r = if c.entry == "call" {
                decode_as_call_unmarked::<B, E, M>(&bufs[0], &mut position, em, meta)
            } else {
                match MarkedData::<B, E, M>::mark(&bufs[0], em) {
                    Ok(m) => decode_as_call::<B, E, M>(&m, em, meta),
                    Err(e) => Err(e),
                }
            };
            match r {
                Ok(call) => {
                    let mut o = Out::ok();
                    if c.entry == "call" {
                        o.pos = position
                    } else {
                        o.cst = "ok".into()
                    }
                    o.toks.part("call", "");
                    o.toks.call(&call);
                    o.cards = card.map(|k| cards(&call.card(0, &k.specs, &k.name)));
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "ext" | "dext" => {
            let r = if c.entry == "ext" {
                decode_extensions_unmarked::<B, E, M>(&bufs[0], &mut position, em, meta, gh)
            } else {
                match MarkedData::<B, E, M>::mark(&bufs[0], em) {
                    Ok(m) => decode_extensions::<B, E, M>(&m, em, meta, gh),
                    Err(e) => Err(e),
                }
            };
            match r {
                Ok(v) => {
                    let mut o = Out::ok();
                    if c.entry == "ext" {
                        o.pos = position
                    }
                    for x in v.iter() {
                        o.toks.part("ext", "");
                        o.toks.ext(x)
                    }
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "mark" => match MarkedData::<B, E, M>::mark(&bufs[0], em) {
            Ok(m) => {
                let cut = m.data_no_extensions().total_len();
                if cut != m.extensions_start() || m.data().total_len() != bufs[0].total_len() {
                    Out::word("cut-mismatch")
                } else {
                    Out::ok().x(format!("[{},{}]", jint(m.call_start() as u64), jint(m.extensions_start() as u64)))
                }
            }
            Err(e) => Out::err(&e),
        },
        "storage" => {
            let s = c.st.as_ref().expect("storage description");
            let entry = StorageEntryMetadata::<PortableForm> {
                name: "Entry".into(),
                modifier: StorageEntryModifier::Optional,
                ty: if s.plain {
                    StorageEntryType::Plain(sym(s.val))
                } else {
                    StorageEntryType::Map {
                        hashers: s.hashers.iter().map(|h| hasher(h)).collect(),
                        key: sym(s.key),
                        value: sym(s.val),
                    }
                },
                default: Vec::new(),
                docs: s.docs.clone(),
            };
            match decode_as_storage_entry::<B, E, M>(&bufs[0], &bufs[1], em, &entry, &meta.types()) {
                Ok(st) => {
                    let mut o = Out::ok();
                    o.toks.key(&st.key);
                    o.toks.part("value", &st.docs);
                    o.toks.ext(&st.value);
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "key" => {
            let s = c.st.as_ref().expect("storage description");
            let hashers: Vec<StorageHasher> = s.hashers.iter().map(|h| hasher(h)).collect();
            match process_key_mapped::<B, E, M>(&hashers, &sym(s.key), &bufs[0], em, c.pos, &meta.types()) {
                Ok(k) => {
                    let mut o = Out::ok();
                    o.toks.key(&k);
                    o
                }
                Err(e) => Out::err(&e),
            }
        }
        "uxt" => match decode_as_unchecked_extrinsic::<B, E, M>(&bufs[0], em, meta) {
            Ok(u) => {
                let mut o = Out::ok();
                o.toks.extrinsic(&u);
                o
            }
            Err(e) => Out::err(&e),
        },
        #[cfg(feature = "steps")]
        other => steps::run_step::<B, E, M>(c, bufs, em, meta).unwrap_or_else(|| panic!("unknown entry {other}")),
        #[cfg(not(feature = "steps"))]
        other => panic!("unknown entry {other}"),
    }
}

/// Entries that need no metadata.
fn run_plain(c: &Case) -> Option<Out> {
    match c.entry.as_str() {
        "era" => {
            let mut input = &c.bufs[0][..];
            Some(match Era::decode(&mut input) {
                Ok(e) => {
                    let used = c.bufs[0].len() - input.len();
                    Out::ok().at(used).x(format!("[{},{}]", era(&e), jbytes(&e.encode())))
                }
                Err(_) => Out { st: "err".into(), e: Rec::new("Codec", 0), ..Default::default() },
            })
        }
        // printed balance: ty width in bytes, pos decimals, bufs amount and unit
        "bal" => {
            let unit = String::from_utf8(c.bufs[1].clone()).expect("unit");
            let b = &c.bufs[0];
            let d = c.pos as u8;
            macro_rules! run {
                ($t:ty) => {{
                    let v = <$t>::from_le_bytes(b[..].try_into().expect("width"));
                    <$t>::convert_balance_pretty(v, d, &unit)
                }};
            }
            let r = match c.ty {
                1 => run!(u8),
                2 => run!(u16),
                4 => run!(u32),
                8 => run!(u64),
                _ => run!(u128),
            };
            Some(Out::ok().x(format!("[{},{}]", jstr(&r.number), jstr(&r.units))))
        }
        _ => None,
    }
}

fn guarded<F: FnOnce() -> Out>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => Out::word("panic"),
    }
}

fn opt<'a>(s: &'a str) -> Option<&'a str> {
    if s == "-" {
        None
    } else {
        Some(s)
    }
}
fn bytes(s: &str) -> Vec<u8> {
    hex::decode(s).expect("hex")
}
fn text(s: &str) -> String {
    String::from_utf8(bytes(s)).expect("utf8")
}

fn parse_case(line: &str) -> Case {
    let p: Vec<&str> = line.split(' ').collect();
    let st = opt(p[7]).map(|s| {
        // plain:VAL:docs | map:h+h:KEY:VAL:docs ; docs hex joined with ','
        let q: Vec<&str> = s.split(':').collect();
        let docs = |d: &str| -> Vec<String> {
            if d.is_empty() {
                Vec::new()
            } else {
                d[1..].split(',').map(text).collect()
            }
        };
        if q[0] == "plain" {
            Storage { plain: true, hashers: vec![], key: 0, val: q[1].parse().unwrap(), docs: docs(q[2]) }
        } else {
            Storage {
                plain: false,
                hashers: q[1].split('+').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
                key: q[2].parse().unwrap(),
                val: q[3].parse().unwrap(),
                docs: docs(q[4]),
            }
        }
    });
    let flags: Vec<String> =
        opt(p[9]).map(|f| f.split('/').map(|x| x.to_string()).collect()).unwrap_or_default();
    Case {
        aux: aux::Aux::parse(&flags),
        id: p[1].into(),
        m: p[2].parse().unwrap(),
        entry: p[3].into(),
        pos: p[4].parse().unwrap(),
        ty: p[5].parse().unwrap(),
        gh: opt(p[6]).map(|h| bytes(h).try_into().unwrap()),
        st,
        bufs: opt(p[8]).map(|b| b.split(',').map(bytes).collect()).unwrap_or_else(|| vec![vec![]]),
        flags,
    }
}

fn case_json(c: &Case, id: &str, flt: &str, r: &str, n: usize) -> String {
    let st = match &c.st {
        None => "[]".to_string(),
        Some(s) => format!(
            "[{{\"plain\":{},\"h\":{},\"key\":{},\"val\":{},\"docs\":{}}}]",
            s.plain, jlist(&s.hashers, |h| jstr(h)), s.key, s.val, jlist(&s.docs, |d| jstr(d))
        ),
    };
    let gh = match &c.gh {
        None => "[]".to_string(),
        Some(h) => format!("[{}]", jbytes(h)),
    };
    let card = card_spec(c).map_or("[]".to_string(), |k| {
        format!(
            "[{{\"prefix\":{},\"dec\":{},\"unit\":{},\"name\":{},\"bal\":{}}}]",
            k.specs.base58prefix, k.specs.decimals, jstr(&k.specs.unit), jstr(&k.name), k.balance
        )
    });
    format!(
        "{{\"id\":{},\"m\":{},\"entry\":\"{}\",\"bufs\":{},\"pos\":{},\"ty\":{},\"gh\":{gh},\"st\":{st},\"flt\":\"{flt}\",\"card\":{card},\"aux\":{},\"n\":{n},\"r\":{r}}}",
        jstr(id), c.m, c.entry, jlist(&c.bufs, |b| jbytes(b)), c.pos, c.ty, c.aux.json()
    )
}

fn card_spec(c: &Case) -> Option<CardSpec> {
    // K:prefix:decimals:unit(hex):name(hex):0|1
    let f = c.flags.iter().find(|f| f.starts_with("K:"))?;
    let q: Vec<&str> = f.split(':').collect();
    Some(CardSpec {
        specs: ShortSpecs {
            base58prefix: q[1].parse().unwrap(),
            decimals: q[2].parse().unwrap(),
            unit: text(q[3]),
        },
        name: text(q[4]),
        balance: q[5] == "1",
    })
}

fn do_case<M>(c: &Case, meta: &M, reg: &Rc<scale_info::PortableRegistry>) -> Vec<String>
where
    M: traits::AsCompleteMetadata<()>,
    M::MetaStructureError: Record,
{
    let slices: Vec<&[u8]> = c.bufs.iter().map(|b| b.as_slice()).collect();
    let card = card_spec(c);
    let base = guarded(|| run_case::<&[u8], (), M>(c, &slices, &mut (), meta, card.as_ref())).json();
    let mut out = vec![case_json(c, &c.id, "", &base, 1)];
    let faults = c.flags.iter().any(|f| f == "f");
    if faults || c.flags.iter().any(|f| f == "x") {
        let bufs: Vec<ExtBuf> =
            c.bufs.iter().map(|b| ExtBuf { data: Rc::new(b.clone()), len: b.len() }).collect();
        let ext = ExtMeta { inner: meta, reg: ExtReg(reg.clone()) };
        let mut m = Mem::default();
        let r = guarded(|| run_case::<ExtBuf, Mem, ExtMeta<M>>(c, &bufs, &mut m, &ext, card.as_ref())).json();
        if r != base {
            out.push(case_json(c, &format!("{}~x", c.id), "", &r, m.n));
        }
        if faults {
            let total = m.n;
            let mut seen: Vec<(String, String, usize)> = Vec::new();
            let step = if total > 400 { total / 400 + 1 } else { 1 };
            let mut k = 1;
            while k <= total {
                for always in [false, true] {
                    let mut m = Mem::failing(k, always);
                    let r = guarded(|| run_case::<ExtBuf, Mem, ExtMeta<M>>(c, &bufs, &mut m, &ext, None)).json();
                    let flt = if always { "always" } else { "once" };
                    match seen.iter_mut().find(|s| s.0 == flt && s.1 == r) {
                        Some(s) => s.2 += 1,
                        None => seen.push((flt.to_string(), r, 1)),
                    }
                }
                k += step;
            }
            for (i, (flt, r, n)) in seen.iter().enumerate() {
                out.push(case_json(c, &format!("{}~{}", c.id, i + 1), flt, r, *n));
            }
        }
    }
    out
}

struct Current {
    line: String,
    since: Option<Instant>,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_default();
    let limit = std::env::var("CASE_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(20u64);
    let current = Arc::new(Mutex::new(Current { line: String::new(), since: None }));
    {
        let current = current.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = current.lock().unwrap();
            if let Some(t) = c.since {
                if t.elapsed() > Duration::from_secs(limit) {
                    let case = parse_case(&c.line);
                    let r = Out::word("timeout").json();
                    let mut o = std::io::stdout();
                    let _ = writeln!(o, "{}", case_json(&case, &case.id, "", &r, 1));
                    let _ = o.flush();
                    std::process::exit(3);
                }
            }
        });
    }
    // the parser runs on a stack of the usual size
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || work(&mode, current)).unwrap();
    if worker.join().is_err() {
        eprintln!("harness error");
        std::process::exit(4);
    }
}

/// Metadata from "F" and "M" lines.
fn load(line: &str) -> Vec<u8> {
    let (kind, rest) = line.split_at(1);
    let h = if kind == "F" {
        std::fs::read_to_string(rest.trim()).expect("metadata file").trim().to_string()
    } else {
        rest.trim().to_string()
    };
    bytes(h.trim_start_matches("0x"))
}
fn decode_meta(b: &[u8], strict: bool) -> Meta {
    let mut input = b;
    let m = match RuntimeMetadataPrefixed::decode(&mut input) {
        Ok(RuntimeMetadataPrefixed(_, RuntimeMetadata::V14(m))) => Meta::V14(m),
        Ok(RuntimeMetadataPrefixed(_, RuntimeMetadata::V15(m))) => Meta::V15(m),
        _ => {
            eprintln!("bad metadata");
            std::process::exit(5)
        }
    };
    if strict && !input.is_empty() {
        eprintln!("metadata bytes left");
        std::process::exit(5)
    }
    m
}
fn registry(m: &Meta) -> Rc<scale_info::PortableRegistry> {
    Rc::new(match m {
        Meta::V14(m) => m.types.clone(),
        Meta::V15(m) => m.types.clone(),
    })
}
fn busy(current: &Arc<Mutex<Current>>, line: Option<&str>) {
    let mut cur = current.lock().unwrap();
    match line {
        Some(l) => {
            cur.line = l.to_string();
            cur.since = Some(Instant::now());
        }
        None => cur.since = None,
    }
}

fn work(mode: &str, current: Arc<Mutex<Current>>) {
    if mode == "history" {
        return history::work(current);
    }
    let stdout = std::io::stdout();
    let mut metas: Vec<(Meta, Rc<scale_info::PortableRegistry>)> = Vec::new();
    let strict = std::env::var("STRICT").is_ok();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        match &line[..1] {
            "F" | "M" => {
                let m = decode_meta(&load(&line), strict);
                if mode == "dump" {
                    let (a, b) = match &m {
                        Meta::V14(m) => dump::v14(m),
                        Meta::V15(m) => dump::v15(m),
                    };
                    let mut o = stdout.lock();
                    writeln!(o, "M {a}").unwrap();
                    writeln!(o, "S {b}").unwrap();
                }
                let reg = registry(&m);
                metas.push((m, reg));
            }
            "C" if mode == "run" => {
                let c = parse_case(&line);
                busy(&current, Some(&line));
                let out = match guarded_plain(&c) {
                    Some(o) => vec![o],
                    None => match &metas[c.m - 1] {
                        (Meta::V14(m), reg) => do_case(&c, m, reg),
                        (Meta::V15(m), reg) => do_case(&c, m, reg),
                    },
                };
                busy(&current, None);
                let mut o = stdout.lock();
                for l in out {
                    writeln!(o, "{l}").unwrap();
                }
                o.flush().unwrap();
            }
            _ => {}
        }
    }
}

fn guarded_plain(c: &Case) -> Option<String> {
    if c.entry != "era" && c.entry != "bal" {
        return None;
    }
    let o = guarded(|| run_plain(c).unwrap());
    Some(case_json(c, &c.id, "", &o.json(), 1))
}
