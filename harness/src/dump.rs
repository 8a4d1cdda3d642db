//! Metadata as the specification's constant `Metas` (and storage entries, for
//! the generators only).
use crate::tokens::*;
use frame_metadata::{v14, v15};
use scale_info::{form::PortableForm, PortableRegistry, TypeDef, TypeDefPrimitive, Variant, Field};

fn strs(v: &[String]) -> String {
    jlist(v, |s| jstr(s))
}
fn fields(v: &[Field<PortableForm>]) -> String {
    jlist(v, |f| {
        format!(
            "{{\"name\":{},\"tn\":{},\"ty\":{},\"docs\":{}}}",
            jopt(&f.name), jopt(&f.type_name), f.ty.id, strs(&f.docs)
        )
    })
}
fn variant(v: &Variant<PortableForm>) -> String {
    format!(
        "{{\"name\":{},\"ix\":{},\"fields\":{},\"docs\":{}}}",
        jstr(&v.name), v.index, fields(&v.fields), strs(&v.docs)
    )
}
pub fn prim(p: &TypeDefPrimitive) -> &'static str {
    match p {
        TypeDefPrimitive::Bool => "Bool",
        TypeDefPrimitive::Char => "Char",
        TypeDefPrimitive::Str => "Str",
        TypeDefPrimitive::U8 => "U8",
        TypeDefPrimitive::U16 => "U16",
        TypeDefPrimitive::U32 => "U32",
        TypeDefPrimitive::U64 => "U64",
        TypeDefPrimitive::U128 => "U128",
        TypeDefPrimitive::U256 => "U256",
        TypeDefPrimitive::I8 => "I8",
        TypeDefPrimitive::I16 => "I16",
        TypeDefPrimitive::I32 => "I32",
        TypeDefPrimitive::I64 => "I64",
        TypeDefPrimitive::I128 => "I128",
        TypeDefPrimitive::I256 => "I256",
    }
}
fn registry(r: &PortableRegistry) -> String {
    // a registry resolves ids by place
    let one = |t: &scale_info::PortableType| {
        let t = &t.ty;
        let def = match &t.type_def {
            TypeDef::Composite(c) => format!("\"def\":\"Composite\",\"fields\":{}", fields(&c.fields)),
            TypeDef::Variant(v) => format!("\"def\":\"Variant\",\"variants\":{}", jlist(&v.variants, variant)),
            TypeDef::Sequence(s) => format!("\"def\":\"Sequence\",\"ty\":{}", s.type_param.id),
            TypeDef::Array(a) => format!("\"def\":\"Array\",\"ty\":{},\"len\":{}", a.type_param.id, jpair(a.len as u64)),
            TypeDef::Tuple(tu) => format!("\"def\":\"Tuple\",\"tys\":{}", jlist(&tu.fields, |x| x.id.to_string())),
            TypeDef::Primitive(p) => format!("\"def\":\"Primitive\",\"prim\":\"{}\"", prim(p)),
            TypeDef::Compact(c) => format!("\"def\":\"Compact\",\"ty\":{}", c.type_param.id),
            TypeDef::BitSequence(b) => format!(
                "\"def\":\"BitSequence\",\"order\":{},\"store\":{}",
                b.bit_order_type.id, b.bit_store_type.id
            ),
        };
        let params = jlist(&t.type_params, |p| {
            format!(
                "{{\"name\":{},\"ty\":{}}}",
                jstr(&p.name),
                match p.ty {
                    Some(ref a) => format!("[{}]", a.id),
                    None => "[]".into(),
                }
            )
        });
        format!(
            "{{\"path\":{},\"docs\":{},\"params\":{params},{def}}}",
            strs(&t.path.segments), strs(&t.docs)
        )
    };
    jlist(&r.types, one)
}
macro_rules! pallets {
    ($p:expr) => {
        jlist($p, |p| {
            format!(
                "{{\"name\":{},\"consts\":{}}}",
                jstr(&p.name),
                jlist(&p.constants, |c| if p.name == "System" {
                    format!("{{\"name\":{},\"ty\":{},\"value\":{}}}", jstr(&c.name), c.ty.id, jbytes(&c.value))
                } else {
                    // contents of other pallets' constants play no role
                    format!("{{\"name\":{},\"ty\":{},\"value\":[]}}", jstr(&c.name), c.ty.id)
                })
            )
        })
    };
}
macro_rules! exts {
    ($e:expr) => {
        jlist(&$e, |x| {
            format!("{{\"id\":{},\"ty\":{},\"add\":{}}}", jstr(&x.identifier), x.ty.id, x.additional_signed.id)
        })
    };
}
macro_rules! storage {
    ($p:expr) => {{
        let mut out = Vec::new();
        for p in $p {
            if let Some(s) = &p.storage {
                for e in s.entries.iter() {
                    let ty = match &e.ty {
                        v14::StorageEntryType::Plain(t) => {
                            format!("\"plain\":true,\"h\":[],\"key\":0,\"val\":{}", t.id)
                        }
                        v14::StorageEntryType::Map { hashers, key, value } => format!(
                            "\"plain\":false,\"h\":{},\"key\":{},\"val\":{}",
                            jlist(hashers, |h| format!("\"{h:?}\"")), key.id, value.id
                        ),
                    };
                    out.push(format!(
                        "{{\"pallet\":{},\"name\":{},{ty},\"docs\":{}}}",
                        jstr(&p.name), jstr(&e.name), strs(&e.docs)
                    ));
                }
            }
        }
        format!("[{}]", out.join(","))
    }};
}

pub fn v14(m: &v14::RuntimeMetadataV14) -> (String, String) {
    (
        format!(
            "{{\"v\":14,\"reg\":{},\"pallets\":{},\"exts\":{},\"xty\":{},\"xver\":{},\"xp\":{{\"a\":0,\"c\":0,\"s\":0,\"e\":0}}}}",
            registry(&m.types), pallets!(&m.pallets), exts!(m.extrinsic.signed_extensions),
            m.extrinsic.ty.id, m.extrinsic.version
        ),
        storage!(&m.pallets),
    )
}
pub fn v15(m: &v15::RuntimeMetadataV15) -> (String, String) {
    (
        format!(
            "{{\"v\":15,\"reg\":{},\"pallets\":{},\"exts\":{},\"xty\":0,\"xver\":{},\"xp\":{{\"a\":{},\"c\":{},\"s\":{},\"e\":{}}}}}",
            registry(&m.types), pallets!(&m.pallets), exts!(m.extrinsic.signed_extensions),
            m.extrinsic.version, m.extrinsic.address_ty.id, m.extrinsic.call_ty.id,
            m.extrinsic.signature_ty.id, m.extrinsic.extra_ty.id
        ),
        storage!(&m.pallets),
    )
}
