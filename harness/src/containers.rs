//! Key containers, conversions, text and JSON forms.
use crate::engine::{count_calls, lib, total, viol, Fail, Res};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{SecretKey, SigningKey, VerifyingKey};
use serde::de::{self, Deserialize, Deserializer, Visitor};

fn json_of<T: serde::Serialize>(v: &T) -> Result<String, Fail> {
    match total("serialize", || serde_json::to_string(v))? {
        Ok(s) => Ok(s),
        Err(e) => viol(format!("serialization failed: {}", e)),
    }
}
fn quoted(b: &[u8]) -> String {
    format!("\"{}\"", hex(b))
}
fn bytes_of_json(s: &str) -> Option<Vec<u8>> {
    let t: String = serde_json::from_str(s).ok()?;
    if t.len() % 2 != 0 || !t.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some(unhex(&t))
}

pub const ROUTE_STEPS: u64 = 7;
/// carry one 57-byte string through a sequence of conversions; nothing may change on the way
pub fn route(bytes: &[u8], steps: &[u8]) -> Res {
    let k = arr57(bytes);
    let want_pk = r::derive_public(&k);
    let mut sk = total("SecretKey::from_bytes", || SecretKey::from_bytes(&k))?;
    let mut vk = total("VerifyingKey::from_bytes", || VerifyingKey::from_bytes(&k))?;
    for &s in steps {
        match s {
            0 => {
                let t = hex(&k);
                sk = total("SecretKey::from_str", || SecretKey::from_str(&t))?;
                vk = total("VerifyingKey::from_str", || VerifyingKey::from_str(&t))?;
            }
            1 => {
                let j = json_of(&sk)?;
                if bytes_of_json(&j).as_deref() != Some(&k[..]) {
                    return viol(format!("SecretKey serialises as {}", j));
                }
                sk = de(&j)?;
                let j = json_of(&vk)?;
                if bytes_of_json(&j).as_deref() != Some(&k[..]) {
                    return viol(format!("VerifyingKey serialises as {}", j));
                }
                vk = de(&j)?;
            }
            2 => {
                let g = total("SigningKey::from(SecretKey)", || SigningKey::from(sk))?;
                check_signing(&g, &k, &want_pk)?;
                sk = *g.secret_key();
            }
            3 => {
                let g = total("SigningKey::from(SecretKey)", || SigningKey::from(sk))?;
                let b = total("to_bytes", || g.to_bytes())?;
                let g = total("SigningKey::from_slice", || SigningKey::from_slice(&b))?;
                check_signing(&g, &k, &want_pk)?;
                sk = *g.secret_key();
            }
            4 => {
                let c = sk.clone();
                sk = c;
                let v = vk.as_bytes().to_vec();
                if v != k {
                    return viol(format!("VerifyingKey::as_bytes is {}", hex(&v)));
                }
                vk = total("VerifyingKey::from_bytes", || VerifyingKey::from_bytes(&v))?;
            }
            5 => {
                let g = total("SigningKey::from(SecretKey)", || SigningKey::from(sk))?;
                let j = json_of(&g)?;
                if bytes_of_json(&j).as_deref() != Some(&k[..]) {
                    return viol(format!("SigningKey serialises as {}", j));
                }
                let g: SigningKey = de(&j)?;
                check_signing(&g, &k, &want_pk)?;
                sk = *g.secret_key();
            }
            _ => {
                let b = total("to_bytes", || SigningKey::from(sk).to_bytes())?;
                match total("SigningKey::from_bytes", || SigningKey::from_bytes(&b))? {
                    Ok(g) => {
                        check_signing(&g, &k, &want_pk)?;
                        sk = *g.secret_key();
                    }
                    Err(e) => return viol(format!("SigningKey::from_bytes: {:?}", e)),
                }
            }
        }
        if sk != SecretKey::from_bytes(&k) || vk != VerifyingKey::from_bytes(&k) {
            return viol(format!("key bytes changed on route {:?} at step {}", steps, s));
        }
        if vk.as_bytes() != k {
            return viol("VerifyingKey::as_bytes differs from the bytes given");
        }
    }
    Ok(h64(&[&k, steps]))
}
fn de<'a, T: Deserialize<'a>>(j: &'a str) -> Result<T, Fail> {
    match total("deserialize", || serde_json::from_str::<T>(j))? {
        Ok(v) => Ok(v),
        Err(e) => viol(format!("own serialization {} refused: {}", j, e)),
    }
}
fn check_signing(g: &SigningKey, k: &[u8; 57], pk: &[u8; 57]) -> Result<(), Fail> {
    if g.to_bytes() != *k || *g.secret_key() != SecretKey::from_bytes(k) {
        return viol("SigningKey does not hold the private key it was made from");
    }
    if g.verifying_key().as_bytes() != pk {
        return viol("SigningKey holds a public key that is not its private key's");
    }
    if *g != SigningKey::from_slice(k) {
        return viol("two SigningKeys of the same private key are not equal");
    }
    Ok(())
}

pub const SIGNER_STEPS: u64 = 12;
/// a signing key through a sequence of conversions; after each it signs as the key it holds
pub fn prehash_route(bytes: &[u8], steps: &[u8], msg: &[u8]) -> Res {
    use libgoldilocks::PrehashSigner;
    let mut k = arr57(bytes);
    let mut g = total("SigningKey::from_slice", || SigningKey::from_slice(&k))?;
    let mut tr = vec![];
    for &s in steps {
        let low = hex(&k);
        g = match s {
            0 => total("SigningKey::from_slice", || SigningKey::from_slice(&g.to_bytes()))?,
            1 => match total("SigningKey::from_bytes", || SigningKey::from_bytes(&g.to_bytes()))? {
                Ok(g) => g,
                Err(e) => return viol(format!("SigningKey::from_bytes: {:?}", e)),
            },
            2 => total("SigningKey::from_str", || SigningKey::from_str(&low))?,
            3 => total("SigningKey::from_str", || SigningKey::from_str(&low.to_uppercase()))?,
            4 => total("SigningKey::from(SecretKey)", || SigningKey::from(*g.secret_key()))?,
            5 => total("SigningKey::from(SecretKey)", || SigningKey::from(SecretKey::from_str(&low)))?,
            6 => de(&json_of(&g)?)?,
            7 => {
                let sk: SecretKey = de(&json_of(g.secret_key())?)?;
                total("SigningKey::from(SecretKey)", || SigningKey::from(sk))?
            }
            8 => g.clone(),
            9 => {
                let mut rng = crate::case::ScriptRng { data: k.to_vec(), pos: 0, mode: 0 };
                let g = total("SigningKey::random", || SigningKey::random(&mut rng))?;
                k = g.to_bytes();
                g
            }
            10 => match total("deserialize", || serde_json::from_value::<SigningKey>(serde_json::Value::String(low.clone())))? {
                Ok(g) => g,
                Err(e) => return viol(format!("{} refused: {}", low, e)),
            },
            _ => {
                let _ = total("sign_prehash", || g.sign_prehash(&k).is_ok())?;
                g
            }
        };
        count_calls(1);
        let want = [&r::sign(&k, msg)[..], &r::derive_public(&k)].concat();
        match total("sign_prehash", || g.sign_prehash(msg))? {
            Ok(x) if x.as_slice() == want => tr.extend(want),
            Ok(x) => return viol(format!("after {:?} of {:?}, extended signature is {} instead of {}", s, steps, hex(x.as_slice()), hex(&want))),
            Err(e) => return viol(format!("sign_prehash: {:?}", e)),
        }
    }
    Ok(h64(&[&tr]))
}

/// slices of a length other than 57 never become a key
pub fn bad_len(n: usize, fill: u8) -> Res {
    let b = vec![fill; n];
    let rs = total("SigningKey::from_bytes", || SigningKey::from_bytes(&b))?;
    if n == 57 {
        return match rs {
            Ok(_) => Ok(57),
            Err(e) => viol(format!("57 bytes refused: {:?}", e)),
        };
    }
    match rs {
        Err(E::InvalidPrivKeyLengthErrro(m)) if m == n => {}
        Err(e) => return viol(format!("{} bytes: wrong error {:?}", n, e)),
        Ok(_) => return viol(format!("SigningKey::from_bytes made a key of {} bytes", n)),
    }
    if lib(|| SigningKey::from_slice(&b)).is_ok() {
        return viol(format!("SigningKey::from_slice made a key of {} bytes", n));
    }
    if lib(|| SecretKey::from_bytes(&b)).is_ok() {
        return viol(format!("SecretKey::from_bytes made a key of {} bytes", n));
    }
    if lib(|| VerifyingKey::from_bytes(&b)).is_ok() {
        return viol(format!("VerifyingKey::from_bytes made a key of {} bytes", n));
    }
    Ok(n as u64 * 256 + fill as u64)
}

fn outcome(kind: u8, b: Result<Vec<u8>, String>, want: &Option<String>, doc: &str) -> Res {
    match (b, want) {
        (Ok(b), Some(w)) => {
            if hex(&b) != *w {
                return viol(format!("{:?} became {} instead of {}", doc, hex(&b), w));
            }
            Ok(h64(&[&[kind], doc.as_bytes(), &b]))
        }
        (Err(e), Some(w)) => viol(format!("{:?} refused ({}), should give {}", doc, e, w)),
        (Ok(b), None) => viol(format!("malformed {:?} accepted as {}", doc, hex(&b))),
        (Err(_), None) => Ok(h64(&[&[kind, 255], doc.as_bytes()])),
    }
}
fn grab<'de, D: Deserializer<'de>>(kind: u8, d: D) -> Result<Vec<u8>, String>
where
    D::Error: std::fmt::Display,
{
    match kind {
        0 => SecretKey::deserialize(d)
            .map(|k| bytes_of_json(&serde_json::to_string(&k).unwrap()).unwrap_or_default())
            .map_err(|e| e.to_string()),
        1 => VerifyingKey::deserialize(d).map(|k| k.as_bytes().to_vec()).map_err(|e| e.to_string()),
        _ => SigningKey::deserialize(d)
            .and_then(|k| {
                let b = k.to_bytes();
                if k.verifying_key().as_bytes() != r::derive_public(&b) {
                    return Err(de::Error::custom("PUBKEY MISMATCH"));
                }
                Ok(b.to_vec())
            })
            .map_err(|e| e.to_string()),
    }
}
/// a JSON document as a whole
pub fn json(kind: u8, doc: &str, want: &Option<String>) -> Res {
    let got = total("deserialize", || {
        let mut d = serde_json::Deserializer::from_str(doc);
        let v = grab(kind, &mut d)?;
        d.end().map_err(|e| e.to_string())?;
        Ok(v)
    })?;
    outcome(kind, got, want, doc)
}

struct Compact<'a>(&'a str, u8);
impl<'de, 'a: 'de> Deserializer<'de> for Compact<'a> {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.1 {
            0 => v.visit_str(self.0),
            1 => v.visit_borrowed_str(self.0),
            2 => v.visit_string(self.0.to_string()),
            3 => v.visit_bytes(self.0.as_bytes()),
            _ => v.visit_borrowed_bytes(self.0.as_bytes()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
/// the same text through other deserializers: 0 str, 1 byte slice, 2 Value, 3 StrDeserializer,
/// 4 StringDeserializer, 10.. not human readable
pub fn json_mem(kind: u8, text: &str, how: u8, want: &Option<String>) -> Res {
    use serde::de::IntoDeserializer;
    let q = format!("\"{}\"", text);
    let got = total("deserialize", || match how {
        0 => grab(kind, &mut serde_json::Deserializer::from_str(&q)),
        1 => grab(kind, &mut serde_json::Deserializer::from_slice(q.as_bytes())),
        2 => grab(kind, serde_json::Value::String(text.to_string())),
        3 => {
            let d: de::value::StrDeserializer<de::value::Error> = text.into_deserializer();
            grab(kind, d)
        }
        4 => {
            let d: de::value::StringDeserializer<de::value::Error> =
                text.to_string().into_deserializer();
            grab(kind, d)
        }
        n => grab(kind, Compact(text, n - 10)),
    })?;
    outcome(kind, got, want, text)
}

/// a serializer that takes a string and nothing else (and passes transparent wrappers through)
struct OnlyText(bool);
#[derive(Debug)]
struct NotText;
impl std::fmt::Display for NotText {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("not a string")
    }
}
impl std::error::Error for NotText {}
impl serde::ser::Error for NotText {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        NotText
    }
}
macro_rules! no {
    ($($n:ident: $t:ty),*) => { $(fn $n(self, _: $t) -> Result<String, NotText> { Err(NotText) })* };
}
type Imp = serde::ser::Impossible<String, NotText>;
impl serde::Serializer for OnlyText {
    type Ok = String;
    type Error = NotText;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    no! { serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
    serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
    serialize_bytes: &[u8], serialize_unit_struct: &'static str }
    fn serialize_str(self, v: &str) -> Result<String, NotText> {
        Ok(v.to_string())
    }
    fn serialize_none(self) -> Result<String, NotText> {
        Err(NotText)
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, v: &T) -> Result<String, NotText> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<String, NotText> {
        Err(NotText)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, NotText> {
        Err(NotText)
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<String, NotText> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, NotText> {
        Err(NotText)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NotText> {
        Err(NotText)
    }
    fn is_human_readable(&self) -> bool {
        self.0
    }
}
struct AsKey<'a, T>(&'a T);
impl<'a, T: serde::Serialize> serde::Serialize for AsKey<'a, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map([(self.0, 7u8)])
    }
}
pub const SER_FORMS: u64 = 8;
/// the serialised form of a key, through several serializers and positions
pub fn ser_form(kind: u8, bytes: &[u8], how: u8) -> Res {
    fn go<T: serde::Serialize>(v: &T, how: u8) -> Result<String, String> {
        let e = |e: serde_json::Error| e.to_string();
        let unq = |s: String, pre: &str, post: &str| {
            s.strip_prefix(pre).and_then(|s| s.strip_suffix(post)).map(|s| s.to_string()).ok_or(s)
        };
        match how {
            0 => unq(serde_json::to_string(v).map_err(e)?, "\"", "\""),
            1 => match serde_json::to_value(v).map_err(e)? {
                serde_json::Value::String(s) => Ok(s),
                o => Err(o.to_string()),
            },
            2 => unq(String::from_utf8(serde_json::to_vec(v).map_err(e)?).unwrap_or_default(), "\"", "\""),
            3 => unq(serde_json::to_string(&AsKey(v)).map_err(e)?, "{\"", "\":7}"),
            4 => unq(serde_json::to_string(&vec![Some(v), None]).map_err(e)?, "[\"", "\",null]"),
            5 => unq(serde_json::to_string_pretty(&(v, 1)).map_err(e)?, "[\n  \"", "\",\n  1\n]"),
            6 => v.serialize(OnlyText(true)).map_err(|e| e.to_string()),
            _ => v.serialize(OnlyText(false)).map_err(|e| e.to_string()),
        }
    }
    let got = total("serialize", || match kind {
        0 => go(&SecretKey::from_bytes(bytes), how),
        1 => go(&VerifyingKey::from_bytes(bytes), how),
        _ => go(&SigningKey::from_slice(bytes), how),
    })?;
    match got {
        Ok(t) if t == hex(bytes) => Ok(h64(&[&[kind, how], t.as_bytes()])),
        o => viol(format!("type {} through serializer {}: {:?} is not the lower-case hex string {}", kind, how, o, hex(bytes))),
    }
}

/// hex text functions; malformed text may panic (documented) but never yields a value
pub fn text(kind: u8, text: &str, want: &Option<String>) -> Res {
    let got = lib(|| match kind {
        0 => g::hex_to_private_key(text).to_vec(),
        1 => g::hex_to_signature(text).to_vec(),
        2 => g::hex_to_message_hash(text).to_vec(),
        3 => bytes_of_json(&serde_json::to_string(&SecretKey::from_str(text)).unwrap())
            .unwrap_or_default(),
        4 => VerifyingKey::from_str(text).as_bytes().to_vec(),
        _ => SigningKey::from_str(text).to_bytes().to_vec(),
    });
    count_calls(1);
    outcome(kind, got, want, text)
}
pub fn quoted_hex(b: &[u8]) -> String {
    quoted(b)
}
