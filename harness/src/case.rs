//! One case = one concrete behaviour of the crate, executed on the real code and compared with
//! the reference model. Cases serialise to JSON, which is what a replay file holds.
use crate::engine::{count_calls, total, viol, Fail, Res};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};

pub mod hx {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::util::hex(v))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(crate::util::unhex(&String::deserialize(d)?))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Lit(#[serde(with = "hx")] Vec<u8>),
    /// (length, tag): deterministic filler
    Pat(usize, u64),
    /// (length, byte)
    Fill(usize, u8),
    /// (length, tag, position, xor): the filler with one byte changed
    PatX(usize, u64, usize, u8),
}
impl Msg {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Msg::Lit(v) => v.clone(),
            Msg::Pat(n, t) => stream(*t, *n),
            Msg::Fill(n, b) => vec![*b; *n],
            Msg::PatX(n, t, p, x) => {
                let mut v = stream(*t, *n);
                v[*p] ^= x;
                v
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// ed448_sign under a key of either form verifies under ed448_derive_public of that key
    SignVerify {
        #[serde(with = "hx")]
        key: Vec<u8>,
        msg: Msg,
    },
    /// sign_by_private / private_to_public, the seed form whatever the top bit
    SeedSignVerify {
        #[serde(with = "hx")]
        key: Vec<u8>,
        msg: Msg,
    },
    /// sign_with_secret_and_nonce / secret_to_public
    NonceSignVerify {
        #[serde(with = "hx")]
        key: Vec<u8>,
        #[serde(with = "hx")]
        nonce: Vec<u8>,
        msg: Msg,
    },
    /// signature bytes are the prescribed ones (all three signing entry points)
    SignExact {
        #[serde(with = "hx")]
        key: Vec<u8>,
        msg: Msg,
    },
    NonceSignExact {
        #[serde(with = "hx")]
        key: Vec<u8>,
        #[serde(with = "hx")]
        nonce: Vec<u8>,
        msg: Msg,
    },
    /// every public route from key to public key
    Derive {
        #[serde(with = "hx")]
        key: Vec<u8>,
        all_routes: bool,
    },
    /// both verification functions against the model
    Verify {
        #[serde(with = "hx")]
        pk: Vec<u8>,
        #[serde(with = "hx")]
        sig: Vec<u8>,
        msg: Msg,
        /// also require the documented error class
        class: bool,
    },
    Prehash {
        #[serde(with = "hx")]
        key: Vec<u8>,
        msg: Msg,
    },
    /// a signing key carried through conversions, signing after each
    PrehashRoute {
        #[serde(with = "hx")]
        key: Vec<u8>,
        steps: Vec<u8>,
        msg: Msg,
    },
    /// R of a signature; used with `unique`
    Nonce {
        #[serde(with = "hx")]
        key: Vec<u8>,
        #[serde(with = "hx")]
        nonce: Vec<u8>, // empty: ed448_sign
        msg: Msg,
    },
    Rng {
        #[serde(with = "hx")]
        script: Vec<u8>,
        /// bytes delivered per call before the generator is asked again are irrelevant to it;
        /// this selects how next_u32/next_u64/fill_bytes consume the script
        mode: u8,
    },
    OsKeys {
        n: usize,
    },
    /// keys of the built-in generator: 0 n on one thread, 1 on n fresh threads, 2 in n processes
    /// forked from one that has made keys, 3 in n new processes
    OsDistinct {
        how: u8,
        n: usize,
    },
    Distinct(Box<Case>, Box<Case>),
    Route {
        #[serde(with = "hx")]
        bytes: Vec<u8>,
        steps: Vec<u8>,
    },
    EqPair {
        #[serde(with = "hx")]
        a: Vec<u8>,
        #[serde(with = "hx")]
        b: Vec<u8>,
    },
    BadLen {
        n: usize,
        fill: u8,
    },
    Json {
        kind: u8,
        doc: String,
        /// Some(bytes): must deserialise to them; None: must be refused
        want: Option<String>,
    },
    JsonMem {
        kind: u8,
        text: String,
        how: u8,
        want: Option<String>,
    },
    Text {
        kind: u8,
        text: String,
        want: Option<String>,
    },
    /// type, key bytes, serializer
    SerForm {
        kind: u8,
        bytes: Vec<u8>,
        how: u8,
    },
    History(Vec<crate::history::Op>),
    /// calls with explicit arguments, one after the other
    Calls(Vec<crate::history::Call>),
    /// the same, every call with its arguments in the same memory
    SameMemory(Vec<crate::history::Call>),
    /// a history in a process of its own
    Fresh(Vec<crate::history::Op>),
    /// a call made from the caller's code that another call calls back
    Nested {
        outer: u8,
        key: u8,
        inner: crate::history::Op,
        place: u8,
    },
    /// arguments at given distances from a boundary
    Placed {
        what: u8,
        key: u8,
        len: u32,
        at: [u8; 3],
    },
    /// arguments sharing memory
    Overlap {
        what: u8,
        key: u8,
        from: u16,
        to: u16,
    },
    /// one call of the history alphabet many times over
    Repeat {
        op: crate::history::Op,
        n: u32,
    },
    Interleave {
        prog: Vec<Vec<crate::history::Op>>,
        order: Vec<u8>,
    },
    /// s*P for P = a*B by the variable-base routine
    #[cfg(feature = "pt_methods")]
    VarMul {
        a: r::N,
        s: [u32; 14],
    },
    /// s1*B + s2*P for P = a*B
    #[cfg(feature = "pt_methods")]
    DblMul {
        a: r::N,
        s1: [u32; 14],
        s2: [u32; 14],
    },
    /// walk on the group: ops on the real point and on its model
    #[cfg(feature = "pt_methods")]
    Walk {
        start: r::N,
        ops: Vec<u8>,
    },
    #[cfg(feature = "int_point")]
    FixMul {
        s: [u32; 14],
    },
    #[cfg(feature = "int_point")]
    Recode {
        s: [u32; 14],
        bits: u8,
    },
    #[cfg(feature = "int_point")]
    Codec {
        #[serde(with = "hx")]
        enc: Vec<u8>,
    },
    #[cfg(feature = "int_field")]
    Field {
        op: crate::field::FOp,
        a: [u32; 16],
        b: [u32; 16],
    },
    #[cfg(feature = "int_field")]
    FieldExpr {
        a: [u32; 16],
        b: [u32; 16],
        ops: Vec<u8>,
    },
    #[cfg(feature = "int_scalar")]
    Scalar {
        op: crate::scalarc::SOp,
        a: [u32; 14],
        b: [u32; 14],
    },
    #[cfg(feature = "int_scalar")]
    DecodeLong {
        #[serde(with = "hx")]
        bytes: Vec<u8>,
    },
}

fn k57(v: &[u8]) -> [u8; 57] {
    v.try_into().expect("57 bytes")
}
pub fn w_of_n(n: &r::N) -> [u32; 14] {
    let mut o = [0u32; 14];
    for i in 0..14 {
        o[i] = (n[i / 2] >> (32 * (i % 2))) as u32;
    }
    o
}
pub fn n_of_w(w: &[u32; 14]) -> r::N {
    let mut o = [0u64; 7];
    for i in 0..14 {
        o[i / 2] |= (w[i] as u64) << (32 * (i % 2));
    }
    o
}
/// A clamped 57-byte raw secret whose scalar is a mod q, if one exists in the clamped range.
pub fn raw_key_of(a: &r::N) -> Option<[u8; 57]> {
    let mut n = r::q_reduce(a);
    loop {
        if n[6] >> 63 == 1 && n[0] & 3 == 0 {
            let mut k = r::to_le57(&n);
            k[56] = 0x80;
            return Some(k);
        }
        let (m, c) = r::adc(&n, &r::Q);
        if c != 0 {
            return None;
        }
        n = m;
    }
}
/// the library's own point for a*B' where its encoding is [4a]... : point_by_secret(k) has
/// encoding scalar_of(k)*B
fn class_ok(w: &r::Why, e: &E) -> bool {
    (w.zero && *e == E::InvalidSignatureError)
        || (w.pk_len && *e == E::InvalidPubkeyLengthError)
        || (w.pk_bad && *e == E::DecodePubkeyError)
        || (w.sig_len && *e == E::InvalidSignatureLengthError)
        || (w.r_bad && *e == E::DecodeSignatureError)
        || (w.s_big && (*e == E::DecodeSignatureError || *e == E::InvalidSignatureError))
        || (w.eq_bad && *e == E::InvalidSignatureError)
}

pub fn check_verify(pk: &[u8], sig: &[u8], m: &[u8], class: bool) -> Res {
    let w = r::verify(pk, sig, m);
    let v = total("ed448_verify", || g::ed448_verify(pk, sig, m))?;
    let ve = total("ed448_verify_with_error", || {
        g::ed448_verify_with_error(pk, sig, m)
    })?;
    let acc = matches!(v, Ok(true));
    if acc != ve.is_ok() {
        return viol(format!(
            "ed448_verify gives {:?} but ed448_verify_with_error gives {:?}",
            v, ve
        ));
    }
    let long = sig.len() > 114;
    let extended = sig.len() == 171 && &sig[114..] == pk;
    if acc && !w.accept() {
        return viol(format!("accepted, although {:?}", w));
    }
    if !acc && w.accept() && (!long || extended) {
        return viol(format!("valid signature refused: {:?} / {:?}", v, ve));
    }
    if class && !w.accept() && !long {
        let rej = match &v {
            Ok(_) => w.eq_bad || w.s_big,
            Err(e) => class_ok(&w, e),
        };
        if !rej {
            return viol(format!("ed448_verify returned {:?}, but the reasons are {:?}", v, w));
        }
        if let Err(e) = &ve {
            if !class_ok(&w, e) {
                return viol(format!(
                    "ed448_verify_with_error returned {:?}, but the reasons are {:?}",
                    ve, w
                ));
            }
        }
    }
    Ok(h64(&[pk, sig, m, format!("{:?}{:?}", v, ve).as_bytes()]))
}

fn must_accept(pk: &[u8], sig: &[u8], m: &[u8]) -> Result<(), Fail> {
    let v = total("ed448_verify", || g::ed448_verify(pk, sig, m))?;
    if v != Ok(true) {
        return viol(format!(
            "own signature refused: ed448_verify -> {:?} (pk {} sig {})",
            v,
            hex(pk),
            hex(sig)
        ));
    }
    let v = total("ed448_verify_with_error", || {
        g::ed448_verify_with_error(pk, sig, m)
    })?;
    if v.is_err() {
        return viol(format!("own signature refused: ed448_verify_with_error -> {:?}", v));
    }
    Ok(())
}

/// what a signing key signs starts with `want`
fn through_signing_key(k: &[u8; 57], m: &[u8], want: &[u8]) -> Result<(), Fail> {
    let sk = total("SigningKey::from_slice", || SigningKey::from_slice(k))?;
    match total("sign_prehash", || sk.sign_prehash(m))? {
        Ok(x) if x.as_slice().starts_with(want) => Ok(()),
        Ok(x) => viol(format!("sign_prehash gives {} instead of {}", hex(x.as_slice()), hex(want))),
        Err(e) => viol(format!("sign_prehash: {:?}", e)),
    }
}
pub struct ScriptRng {
    pub data: Vec<u8>,
    pub pos: usize,
    pub mode: u8,
}
impl ScriptRng {
    fn byte(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or_else(|| (self.pos as u8) ^ 0x5a);
        self.pos += 1;
        b
    }
}
impl rand::RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        for x in b.iter_mut() {
            *x = self.byte()
        }
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32() as u64 | (self.next_u32() as u64) << 32
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if self.mode == 1 {
            // word oriented generator: whole words are consumed, as block generators do
            for c in dest.chunks_mut(4) {
                let w = self.next_u32().to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&w[..n]);
            }
        } else {
            for d in dest.iter_mut() {
                *d = self.byte()
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand::CryptoRng for ScriptRng {}

impl Case {
    pub fn json(&self) -> String {
        serde_json::to_string(self).unwrap()
    }

    /// what the observer of a `unique` space sees
    pub fn observe(&self) -> Result<Vec<u8>, Fail> {
        match self {
            Case::Nonce { key, nonce, msg } => {
                let (k, m) = (k57(key), msg.bytes());
                let (s, want) = if nonce.is_empty() {
                    let want = r::commitment(&k, None, &m);
                    through_signing_key(&k, &m, &want)?;
                    (total("ed448_sign", || g::ed448_sign(&k, &m))?, want)
                } else {
                    let n = k57(nonce);
                    let s = total("sign_with_secret_and_nonce", || {
                        g::sign_with_secret_and_nonce(&k, &n, &m)
                    })?;
                    (s, r::commitment(&k, Some(&n), &m))
                };
                if s[..57] != want {
                    return viol(format!("R is {} instead of {}", hex(&s[..57]), hex(&want)));
                }
                Ok(s[..57].to_vec())
            }
            Case::Rng { script, mode } => {
                let mut rng = ScriptRng {
                    data: script.clone(),
                    pos: 0,
                    mode: *mode,
                };
                let sk = total("SigningKey::random", || SigningKey::random(&mut rng))?;
                let key = sk.to_bytes();
                let want = r::derive_public(&key);
                if sk.verifying_key().as_bytes() != want {
                    return viol("random key: public key is not the one of its private key");
                }
                if *sk.secret_key() != SecretKey::from_bytes(&key) {
                    return viol("random key: secret_key() differs from to_bytes()");
                }
                // every eighth also signs
                if h64(&[script]) % 8 == 0 {
                    let m = &script[..script.len().min(32)];
                    match total("sign_prehash", || sk.sign_prehash(m))? {
                        Ok(x) => must_accept(&want, &x.as_slice()[..114.min(x.as_slice().len())], m)?,
                        Err(e) => return viol(format!("random key: sign_prehash: {:?}", e)),
                    }
                }
                // a second draw starts where the first stopped and owes nothing to it
                let mut fresh = ScriptRng { data: script.clone(), pos: rng.pos, mode: *mode };
                let second = total("SigningKey::random", || SigningKey::random(&mut rng))?;
                let alone = total("SigningKey::random", || SigningKey::random(&mut fresh))?;
                if second != alone {
                    return viol("random key: the second key drawn depends on the first");
                }
                if second.to_bytes() == key {
                    return viol("random key: two draws from the source give the same key");
                }
                let mut o = vec![*mode];
                o.extend_from_slice(&key);
                Ok(o)
            }
            _ => Err(Fail::Engine("no observation".into())),
        }
    }

    pub fn run(&self) -> Res {
        match self {
            Case::SignVerify { key, msg } => {
                let (k, m) = (k57(key), msg.bytes());
                let pk = total("ed448_derive_public", || g::ed448_derive_public(&k))?;
                let sig = total("ed448_sign", || g::ed448_sign(&k, &m))?;
                must_accept(&pk, &sig, &m)?;
                // through a signing key: the same signature has just been accepted
                let sk = total("SigningKey::from_slice", || SigningKey::from_slice(&k))?;
                let own = sk.verifying_key().as_bytes().to_vec();
                match total("sign_prehash", || sk.sign_prehash(&m))? {
                    Ok(x) if x.as_slice().len() < 114 => return viol(format!("sign_prehash gave {} bytes", x.as_slice().len())),
                    Ok(x) if x.as_slice()[..114] != sig || own != pk => must_accept(&own, &x.as_slice()[..114], &m)?,
                    Ok(_) => {}
                    Err(e) => return viol(format!("sign_prehash: {:?}", e)),
                }
                Ok(h64(&[&pk, &sig]))
            }
            Case::SeedSignVerify { key, msg } => {
                let (k, m) = (k57(key), msg.bytes());
                let pk = total("private_to_public", || g::private_to_public(&k))?;
                let sig = total("sign_by_private", || g::sign_by_private(&k, &m))?;
                must_accept(&pk, &sig, &m)?;
                Ok(h64(&[&pk, &sig]))
            }
            Case::NonceSignVerify { key, nonce, msg } => {
                let (k, n, m) = (k57(key), k57(nonce), msg.bytes());
                let pk = total("secret_to_public", || g::secret_to_public(&k))?;
                let sig = total("sign_with_secret_and_nonce", || {
                    g::sign_with_secret_and_nonce(&k, &n, &m)
                })?;
                must_accept(&pk, &sig, &m)?;
                Ok(h64(&[&pk, &sig]))
            }
            Case::SignExact { key, msg } => {
                let (k, m) = (k57(key), msg.bytes());
                let want = r::sign(&k, &m);
                let got = total("ed448_sign", || g::ed448_sign(&k, &m))?;
                if got != want {
                    return viol(format!("ed448_sign gives {} instead of {}", hex(&got), hex(&want)));
                }
                through_signing_key(&k, &m, &want)?;
                if !r::is_raw(&k) || m.len() <= 2 || m.len() % 8 == 0 {
                    let want = r::sign_seed(&k, &m);
                    let got = total("sign_by_private", || g::sign_by_private(&k, &m))?;
                    if got != want {
                        return viol(format!(
                            "sign_by_private gives {} instead of {}",
                            hex(&got),
                            hex(&want)
                        ));
                    }
                }
                Ok(h64(&[&got]))
            }
            Case::NonceSignExact { key, nonce, msg } => {
                let (k, n, m) = (k57(key), k57(nonce), msg.bytes());
                let want = r::sign_secret_nonce(&k, &n, &m);
                let got = total("sign_with_secret_and_nonce", || {
                    g::sign_with_secret_and_nonce(&k, &n, &m)
                })?;
                if got != want {
                    return viol(format!(
                        "sign_with_secret_and_nonce gives {} instead of {}",
                        hex(&got),
                        hex(&want)
                    ));
                }
                Ok(h64(&[&got]))
            }
            Case::Derive { key, all_routes } => {
                let k = k57(key);
                let want = r::derive_public(&k);
                let same = |what: &str, got: &[u8], want: &[u8]| -> Result<(), Fail> {
                    if got != want {
                        viol(format!("{} gives {} instead of {}", what, hex(got), hex(want)))
                    } else {
                        Ok(())
                    }
                };
                let got = total("ed448_derive_public", || g::ed448_derive_public(&k))?;
                same("ed448_derive_public", &got, &want)?;
                if *all_routes {
                    let seedpub = r::pub_of_seed(&k);
                    let rawpub = r::pub_of_secret(&k);
                    same(
                        "private_to_public",
                        &total("private_to_public", || g::private_to_public(&k))?,
                        &seedpub,
                    )?;
                    same(
                        "secret_to_public",
                        &total("secret_to_public", || g::secret_to_public(&k))?,
                        &rawpub,
                    )?;
                    let mut sh = [0u8; 57];
                    r::shake256(&[&k], &mut sh);
                    sh[56] |= 0x80;
                    let sec = total("private_to_secret", || g::private_to_secret(&k))?;
                    same("private_to_secret", &sec, &sh)?;
                    // expanding a seed gives a raw key with the same public key
                    same(
                        "ed448_derive_public(private_to_secret(k))",
                        &total("ed448_derive_public", || g::ed448_derive_public(&sec))?,
                        &seedpub,
                    )?;
                    same(
                        "point_by_secret(k) encoded",
                        &total("point_by_secret", || g::point_by_secret(&k).eddsa_like_encode())?,
                        &rawpub,
                    )?;
                    let sk = total("SigningKey::from_slice", || SigningKey::from_slice(&k))?;
                    same("SigningKey::from_slice", sk.verifying_key().as_bytes(), &want)?;
                    let sk = total("SigningKey::from_bytes", || SigningKey::from_bytes(&k))?;
                    match sk {
                        Ok(sk) => same("SigningKey::from_bytes", sk.verifying_key().as_bytes(), &want)?,
                        Err(e) => return viol(format!("SigningKey::from_bytes: {:?}", e)),
                    }
                    let sk = total("SigningKey::from_str", || SigningKey::from_str(&hex(&k)))?;
                    same("SigningKey::from_str", sk.verifying_key().as_bytes(), &want)?;
                    let sk = total("SigningKey::from(SecretKey)", || {
                        SigningKey::from(SecretKey::from_bytes(&k))
                    })?;
                    same("SigningKey::from(SecretKey)", sk.verifying_key().as_bytes(), &want)?;
                    let sk = total("deserialize", || serde_json::from_str::<SigningKey>(&format!("\"{}\"", hex(&k))))?;
                    match sk {
                        Ok(sk) => same("SigningKey from JSON", sk.verifying_key().as_bytes(), &want)?,
                        Err(e) => return viol(format!("SigningKey from JSON: {}", e)),
                    }
                    let mut rng = ScriptRng { data: k.to_vec(), pos: 0, mode: 0 };
                    let sk = total("SigningKey::random", || SigningKey::random(&mut rng))?;
                    same("SigningKey::random", sk.verifying_key().as_bytes(), &r::derive_public(&sk.to_bytes()))?;
                }
                Ok(h64(&[&got]))
            }
            Case::Verify { pk, sig, msg, class } => check_verify(pk, sig, &msg.bytes(), *class),
            Case::Prehash { key, msg } => {
                let (k, m) = (k57(key), msg.bytes());
                let pk = r::derive_public(&k);
                let want = r::sign(&k, &m);
                let sk = total("SigningKey::from_slice", || SigningKey::from_slice(&k))?;
                let s = match total("sign_prehash", || sk.sign_prehash(&m))? {
                    Ok(s) => s,
                    Err(e) => return viol(format!("sign_prehash: {:?}", e)),
                };
                let b = s.as_slice();
                if b.len() != 171 {
                    return viol(format!("extended signature has {} bytes", b.len()));
                }
                if b[..114] != want || b[114..] != pk {
                    return viol(format!(
                        "extended signature is {} instead of {}{}",
                        hex(b),
                        hex(&want),
                        hex(&pk)
                    ));
                }
                must_accept(&b[114..], &b[..114], &m)?;
                must_accept(&b[114..], b, &m)?;
                Ok(h64(&[b]))
            }
            Case::PrehashRoute { key, steps, msg } => crate::containers::prehash_route(key, steps, &msg.bytes()),
            Case::Nonce { .. } | Case::Rng { .. } => {
                let o = self.observe()?;
                Ok(h64(&[&o]))
            }
            Case::Distinct(a, b) => {
                let (x, y) = (a.observe()?, b.observe()?);
                if x == y {
                    return viol(format!("two different cases share the outcome {}", hex(&x)));
                }
                Ok(h64(&[&x, &y]))
            }
            Case::OsKeys { n } => {
                let mut seen = std::collections::HashSet::new();
                let (mut or, mut and) = ([0u8; 57], [0xffu8; 57]);
                // of the sets of keys with bit a (clear | set): all or, all and; values of each byte
                let mut por = vec![[[0u8; 57]; 2]; 456];
                let mut pand = vec![[[0xffu8; 57]; 2]; 456];
                let mut val = vec![[false; 256]; 57];
                for _ in 0..*n {
                    let k = total("ed448_generate_key", g::ed448_generate_key)?;
                    for i in 0..57 {
                        or[i] |= k[i];
                        and[i] &= k[i];
                        val[i][k[i] as usize] = true;
                    }
                    for a in 0..456 {
                        let b = (k[a / 8] >> (a % 8) & 1) as usize;
                        for i in 0..57 {
                            por[a][b][i] |= k[i];
                            pand[a][b][i] &= k[i];
                        }
                    }
                    if !seen.insert(k) {
                        return viol(format!("ed448_generate_key returned {} twice", hex(&k)));
                    }
                }
                if or != [0xff; 57] || and != [0; 57] {
                    return viol(format!(
                        "ed448_generate_key: some key bits never change over {} keys: or {} and {}",
                        n,
                        hex(&or),
                        hex(&and)
                    ));
                }
                // with 20 000 keys an honest source misses any of these with probability below 2^-80
                if *n >= 20_000 {
                    if let Some((i, v)) = (0..57).flat_map(|i| (0..256).map(move |v| (i, v))).find(|&(i, v)| !val[i][v]) {
                        return viol(format!("ed448_generate_key: byte {} was never {:#04x} in {} keys", i, v, n));
                    }
                    for a in 0..456 {
                        for b in 0..2 {
                            for c in 0..456 {
                                let bit = |x: &[u8; 57]| x[c / 8] >> (c % 8) & 1;
                                if c != a && (bit(&por[a][b]) == 0 || bit(&pand[a][b]) == 1) {
                                    return viol(format!("ed448_generate_key: in {} keys, bit {} is constant whenever bit {} is {}", n, c, a, b));
                                }
                            }
                        }
                    }
                }
                Ok(1)
            }
            Case::OsDistinct { how, n } => {
                let keys = crate::history::os_keys(*how, *n)?;
                // two 16-byte windows: equal keys agree in both, different ones do so with probability 2^-256
                let mut f: Vec<(u128, u128)> = keys
                    .iter()
                    .map(|k| (u128::from_le_bytes(k[..16].try_into().unwrap()), u128::from_le_bytes(k[41..].try_into().unwrap())))
                    .collect();
                f.sort_unstable();
                match f.windows(2).find(|w| w[0] == w[1]) {
                    Some(w) => viol(format!("ed448_generate_key gave a key starting {} twice in {} keys ({})", hex(&w[0].0.to_le_bytes()), keys.len(), ["one thread", "fresh threads", "forked processes", "new processes"][*how as usize & 3])),
                    None => Ok(*how as u64),
                }
            }
            Case::Route { bytes, steps } => crate::containers::route(bytes, steps),
            Case::EqPair { a, b } => {
                let eq = a == b;
                let (sa, sb) = (SecretKey::from_bytes(a), SecretKey::from_bytes(b));
                let (va, vb) = (VerifyingKey::from_bytes(a), VerifyingKey::from_bytes(b));
                count_calls(4);
                if (sa == sb) != eq || (sa != sb) == eq {
                    return viol("SecretKey equality is not equality of its bytes");
                }
                if (va == vb) != eq || (va != vb) == eq {
                    return viol("VerifyingKey equality is not equality of its bytes");
                }
                let (ga, gb) = (SigningKey::from_slice(a), SigningKey::from_slice(b));
                if (ga == gb) != eq {
                    return viol("SigningKey equality is not equality of its bytes");
                }
                if sa.clone() != sa || va.clone() != va || ga.clone() != ga {
                    return viol("a clone differs from its original");
                }
                Ok(h64(&[a, b]))
            }
            Case::BadLen { n, fill } => crate::containers::bad_len(*n, *fill),
            Case::Json { kind, doc, want } => crate::containers::json(*kind, doc, want),
            Case::JsonMem { kind, text, how, want } => {
                crate::containers::json_mem(*kind, text, *how, want)
            }
            Case::SerForm { kind, bytes, how } => crate::containers::ser_form(*kind, bytes, *how),
            Case::Text { kind, text, want } => crate::containers::text(*kind, text, want),
            Case::Fresh(ops) => crate::history::run_fresh(ops),
            Case::History(ops) => crate::history::run_history(ops),
            Case::Calls(c) => crate::history::run_calls(c),
            Case::SameMemory(c) => crate::history::run_same_memory(c),
            Case::Nested { outer, key, inner, place } => crate::embed::run_nested(*outer, *key, *inner, *place),
            Case::Placed { what, key, len, at } => crate::embed::run_placed(*what, *key, *len, *at),
            Case::Overlap { what, key, from, to } => crate::embed::run_overlap(*what, *key, *from, *to),
            Case::Repeat { op, n } => crate::history::repeat(*op, *n),
            Case::Interleave { prog, order } => crate::history::run_interleaved(prog, order),
            #[cfg(feature = "pt_methods")]
            Case::VarMul { a, s } => crate::group::var_mul(a, s),
            #[cfg(feature = "pt_methods")]
            Case::DblMul { a, s1, s2 } => crate::group::dbl_mul(a, s1, s2),
            #[cfg(feature = "pt_methods")]
            Case::Walk { start, ops } => crate::group::walk(start, ops),
            #[cfg(feature = "int_point")]
            Case::FixMul { s } => crate::group::fix_mul(s),
            #[cfg(feature = "int_point")]
            Case::Recode { s, bits } => crate::group::recode(s, *bits),
            #[cfg(feature = "int_point")]
            Case::Codec { enc } => crate::group::codec(enc),
            #[cfg(feature = "int_field")]
            Case::Field { op, a, b } => crate::field::run(*op, a, b),
            #[cfg(feature = "int_field")]
            Case::FieldExpr { a, b, ops } => crate::field::expr(a, b, ops),
            #[cfg(feature = "int_scalar")]
            Case::Scalar { op, a, b } => crate::scalarc::run(*op, a, b),
            #[cfg(feature = "int_scalar")]
            Case::DecodeLong { bytes } => crate::scalarc::decode_long(bytes),
        }
    }
}
