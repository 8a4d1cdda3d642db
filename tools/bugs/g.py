_ns={}
exec(open('/verif/tools/bugs/e.py').read(), _ns)
globals().update({k: v for k, v in _ns.items() if k.isupper() and k != 'BUGS'})
BUGS = [
dict(id='nostd-prefix', property='C23', nostd=True,
 needs='the no_std build and a chain whose address prefix does not fit one byte',
 breaks='without std the address is written with the low byte of the prefix only',
 edits=[(CARDS,'''                    let base58 = value.to_base58_string(base58prefix);
                    Self { base58 }''','''                    let base58 = value.to_base58_string(base58prefix & 0xff);
                    Self { base58 }''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::U8), arr(32, 0), comp("sp_core::crypto::AccountId32", vec![f("", 1, "")])]);
    let x = all(&r, 2, &[7; 32]).unwrap();
    let show = |prefix| x.show(0, false, &ShortSpecs { base58prefix: prefix, decimals: 12, unit: "U".to_string() }, "x");
    assert!(show(42) != show(256 + 42));
}'''),
dict(id='nostd-lossy-text', property='C23', nostd=True,
 needs='the no_std build and a text that is not valid UTF-8',
 breaks='without std such a text is repaired with replacement characters instead of being refused',
 edits=[(SCI,'''    let text = match String::from_utf8(into_string.as_ref().to_vec()) {''',
 '''    #[cfg(not(feature = "std"))]
    let converted: Result<String, ()> =
        Ok(String::from_utf8_lossy(into_string.as_ref()).into_owned());
    #[cfg(feature = "std")]
    let converted = String::from_utf8(into_string.as_ref().to_vec());
    let text = match converted {''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Str)]);
    assert!(all(&r, 0, &[4, 0x41]).is_ok());
    assert!(all(&r, 0, &[4, 0xff]).is_err());
}'''),
dict(id='nostd-error-text', property='C23', nostd=True,
 needs='the no_std build and a parser error being printed',
 breaks='without std the error text names no position or cause',
 edits=[(ERR,'''            impl <E: ExternalMemory> Display for $ty {
                fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
                    write!(f, "{}", self.error_text())
                }''','''            impl <E: ExternalMemory> Display for $ty {
                fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
                    if cfg!(not(feature = "std")) {
                        return write!(f, "{}", stringify!($ty));
                    }
                    write!(f, "{}", self.error_text())
                }''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::Bool)]);
    let e = all(&r, 0, &[4]).unwrap_err().to_string();
    assert!(e.contains("bool"), "{e}");
}'''),
dict(id='nostd-negative', property='C23', nostd=True,
 needs='the no_std build and a negative I256',
 breaks='without std a negative I256 comes out positive',
 edits=[(SPT,'''impl_stable_length_big_construct!(BigInt, from_signed_bytes_le);''','''#[cfg(feature = "std")]
impl_stable_length_big_construct!(BigInt, from_signed_bytes_le);
#[cfg(not(feature = "std"))]
impl StableLength for BigInt {
    fn len_encoded() -> usize {
        BIG_LEN
    }
    fn cut_and_decode<B, E>(
        data: &B,
        ext_memory: &mut E,
        position: &mut usize,
    ) -> Result<Self, ParserError<E>>
    where
        B: AddressableBuffer<E>,
        E: ExternalMemory,
    {
        let magnitude = BigUint::cut_and_decode::<B, E>(data, ext_memory, position)?;
        Ok(magnitude.into())
    }
}''')],
 demo='''
fn main() {
    let r = reg(vec![prim(P::I256)]);
    match all(&r, 0, &[0xff; 32]).unwrap().data {
        ParsedData::PrimitiveI256(x) => assert_eq!(x.to_string(), "-1"),
        other => panic!("{other:?}"),
    }
}'''),
]
