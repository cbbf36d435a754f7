//! Histories and schedules of API calls. The model of the API has no state: every call is a
//! function of its arguments. A history conforms if each call answers as the model does, whatever
//! came before it and on whatever thread.
use crate::case::hx;
use crate::engine::{lib, total, viol, Fail, Res};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    /// key
    Derive(u8),
    DeriveSeed(u8),
    DeriveRaw(u8),
    Expand(u8),
    /// key, message
    Sign(u8, u8),
    SignSeed(u8, u8),
    /// key, nonce, message
    SignNonce(u8, u8, u8),
    Prehash(u8, u8),
    /// verifying key, signing key, message verified, message signed
    Verify(u8, u8, u8, u8),
    VerifyErr(u8, u8, u8, u8),
    /// signature with one bit flipped: key, message, bit
    VerifyFlip(u8, u8, u16),
    /// key, message, which malformed input
    VerifyBad(u8, u8, u8),
    Json(u8),
    BadJson(u8),
    BadHex,
    /// every container and text entry point, given something of a wrong length or alphabet
    BadCalls,
    Gen,
    Random(u8),
    Point(u8),
}

/// keys 0.. : families whose members differ in exactly one byte, of both forms
pub fn hkey(i: u8) -> [u8; 57] {
    let seed = key(900, false);
    let mut k = seed;
    match i {
        0 => {}
        1 => k[0] ^= 4,
        2 => k[55] ^= 1,
        3 => k[56] ^= 0x80,
        4 => k[28] ^= 0x10,
        5 => {
            k[56] ^= 0x80;
            k[0] ^= 8
        }
        6 => {
            k[56] ^= 0x80;
            k[55] ^= 2
        }
        7 => k[56] ^= 1,
        8 => k = [0; 57],
        9 => {
            k = [0; 57];
            k[56] = 0x80
        }
        10 => k = [0x7f; 57],
        11 => k = [0xff; 57],
        n => k = key(1000 + n as u64, n % 2 == 1),
    }
    k
}
pub fn hmsg(i: u8) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        3 => stream(7, 32),
        4 => {
            let mut m = stream(7, 32);
            m[31] ^= 1;
            m
        }
        5 => {
            let mut m = stream(7, 32);
            m[0] ^= 1;
            m
        }
        6 => stream(7, 33),
        7 => stream(7, 200),
        n => stream(n as u64, n as usize),
    }
}
pub fn bad_input(w: u8, pk: &[u8; 57], s: &[u8; 114]) -> (Vec<u8>, Vec<u8>) {
    match w {
        0 => (pk[..56].to_vec(), s.to_vec()),
        1 => (pk.to_vec(), s[..113].to_vec()),
        2 => (vec![0xff; 57], s.to_vec()),
        3 => {
            let mut t = *s;
            t[..57].fill(0xff);
            (pk.to_vec(), t.to_vec())
        }
        4 => (vec![0; 57], s.to_vec()),
        5 => (pk.to_vec(), vec![0; 114]),
        6 => {
            let mut p = *pk;
            p[56] ^= 0x80;
            (p.to_vec(), s.to_vec())
        }
        7 => {
            let mut p = *pk;
            p[56] ^= 1;
            (p.to_vec(), s.to_vec())
        }
        8 => {
            let mut p = *pk;
            p[0] ^= 1;
            (p.to_vec(), s.to_vec())
        }
        9 => {
            let mut t = *s;
            t[113] = 1;
            (pk.to_vec(), t.to_vec())
        }
        _ => {
            let mut t = *s;
            t[56] ^= 0x80;
            (pk.to_vec(), t.to_vec())
        }
    }
}
fn show(x: impl std::fmt::Debug) -> Vec<u8> {
    format!("{:?}", x).into_bytes()
}

static MODEL: OnceLock<Mutex<HashMap<Op, Vec<u8>>>> = OnceLock::new();
fn msign(k: u8, m: u8) -> [u8; 114] {
    static C: OnceLock<Mutex<HashMap<(u8, u8), [u8; 114]>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(s) = c.lock().unwrap().get(&(k, m)) {
        return *s;
    }
    let s = r::sign(&hkey(k), &hmsg(m));
    c.lock().unwrap().insert((k, m), s);
    s
}
fn mpub(k: u8) -> [u8; 57] {
    static C: OnceLock<Mutex<HashMap<u8, [u8; 57]>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(s) = c.lock().unwrap().get(&k) {
        return *s;
    }
    let s = r::derive_public(&hkey(k));
    c.lock().unwrap().insert(k, s);
    s
}
/// the answer every execution must give; empty: nothing but totality is required
fn model(o: Op) -> Vec<u8> {
    let c = MODEL.get_or_init(Default::default);
    if let Some(v) = c.lock().unwrap().get(&o) {
        return v.clone();
    }
    let acc = |w: r::Why| vec![w.accept() as u8];
    let v = match o {
        Op::Derive(k) => mpub(k).to_vec(),
        Op::DeriveSeed(k) => r::pub_of_seed(&hkey(k)).to_vec(),
        Op::DeriveRaw(k) | Op::Point(k) => r::pub_of_secret(&hkey(k)).to_vec(),
        Op::Expand(k) => {
            let mut s = [0u8; 57];
            r::shake256(&[&hkey(k)], &mut s);
            s[56] |= 0x80;
            s.to_vec()
        }
        Op::Sign(k, m) => msign(k, m).to_vec(),
        Op::SignSeed(k, m) => r::sign_seed(&hkey(k), &hmsg(m)).to_vec(),
        Op::SignNonce(k, n, m) => r::sign_secret_nonce(&hkey(k), &hkey(n), &hmsg(m)).to_vec(),
        Op::Prehash(k, m) => [&msign(k, m)[..], &mpub(k)[..]].concat(),
        Op::Verify(v, k, m, s) | Op::VerifyErr(v, k, m, s) => {
            acc(r::verify(&mpub(v), &msign(k, s), &hmsg(m)))
        }
        Op::VerifyFlip(k, m, b) => {
            let mut s = msign(k, m);
            s[b as usize / 8] ^= 1 << (b % 8);
            acc(r::verify(&mpub(k), &s, &hmsg(m)))
        }
        Op::VerifyBad(k, m, w) => {
            let (p, s) = bad_input(w, &mpub(k), &msign(k, m));
            acc(r::verify(&p, &s, &hmsg(m)))
        }
        Op::Json(k) => show((hex(&hkey(k)), hex(&mpub(k)))),
        Op::BadJson(_) => b"refused".to_vec(),
        Op::BadHex | Op::BadCalls => b"refused".to_vec(),
        Op::Gen => vec![],
        Op::Random(k) => [&hkey(k)[..], &mpub(k)[..]].concat(),
    };
    c.lock().unwrap().insert(o, v.clone());
    v
}

fn exec(o: Op) -> Result<Vec<u8>, String> {
    lib(|| match o {
        Op::Derive(k) => g::ed448_derive_public(&hkey(k)).to_vec(),
        Op::DeriveSeed(k) => g::private_to_public(&hkey(k)).to_vec(),
        Op::DeriveRaw(k) => g::secret_to_public(&hkey(k)).to_vec(),
        Op::Point(k) => g::point_by_secret(&hkey(k)).eddsa_like_encode().to_vec(),
        Op::Expand(k) => g::private_to_secret(&hkey(k)).to_vec(),
        Op::Sign(k, m) => g::ed448_sign(&hkey(k), &hmsg(m)).to_vec(),
        Op::SignSeed(k, m) => g::sign_by_private(&hkey(k), &hmsg(m)).to_vec(),
        Op::SignNonce(k, n, m) => {
            g::sign_with_secret_and_nonce(&hkey(k), &hkey(n), &hmsg(m)).to_vec()
        }
        Op::Prehash(k, m) => match SigningKey::from_slice(&hkey(k)).sign_prehash(&hmsg(m)) {
            Ok(s) => s.as_slice().to_vec(),
            Err(e) => show(e),
        },
        Op::Verify(v, k, m, s) => show(g::ed448_verify(&mpub(v), &msign(k, s), &hmsg(m))),
        Op::VerifyErr(v, k, m, s) => {
            show(g::ed448_verify_with_error(&mpub(v), &msign(k, s), &hmsg(m)))
        }
        Op::VerifyFlip(k, m, b) => {
            let mut s = msign(k, m);
            s[b as usize / 8] ^= 1 << (b % 8);
            show(g::ed448_verify(&mpub(k), &s, &hmsg(m)))
        }
        Op::VerifyBad(k, m, w) => {
            let (p, s) = bad_input(w, &mpub(k), &msign(k, m));
            show(g::ed448_verify(&p, &s, &hmsg(m)))
        }
        Op::Json(k) => {
            let j = serde_json::to_string(&SigningKey::from_slice(&hkey(k))).unwrap();
            let s: SigningKey = serde_json::from_str(&j).unwrap();
            let v: VerifyingKey =
                serde_json::from_str(&serde_json::to_string(s.verifying_key()).unwrap()).unwrap();
            show((hex(&s.to_bytes()), hex(v.as_bytes())))
        }
        Op::BadJson(w) => {
            let d = ["\"00\"", "7", "\"zz\"", "null"][w as usize % 4];
            let a = serde_json::from_str::<SecretKey>(d).is_err();
            let b = serde_json::from_str::<SigningKey>(d).is_err();
            if a && b {
                b"refused".to_vec()
            } else {
                b"accepted".to_vec()
            }
        }
        Op::BadHex => match std::panic::catch_unwind(|| g::hex_to_private_key("0g")) {
            Err(_) => b"refused".to_vec(),
            Ok(_) => b"accepted".to_vec(),
        },
        Op::BadCalls => bad_calls(),
        Op::Gen => {
            let k = g::ed448_generate_key();
            let pk = g::ed448_derive_public(&k);
            let m = hmsg(3);
            let s = g::ed448_sign(&k, &m);
            if pk == r::derive_public(&k) && matches!(g::ed448_verify(&pk, &s, &m), Ok(true)) {
                vec![]
            } else {
                [b"fresh key does not work: ".to_vec(), k.to_vec()].concat()
            }
        }
        Op::Random(k) => {
            let mut rng = crate::case::ScriptRng {
                data: hkey(k).to_vec(),
                pos: 0,
                mode: 0,
            };
            let s = SigningKey::random(&mut rng);
            // whatever bytes the generator is asked for, key and public key belong together
            let b = s.to_bytes();
            if b == hkey(k) {
                [&b[..], s.verifying_key().as_bytes()].concat()
            } else if s.verifying_key().as_bytes() == r::derive_public(&b) {
                [&hkey(k)[..], &mpub(k)[..]].concat()
            } else {
                b"mismatch".to_vec()
            }
        }
    })
}
/// calls that are all refused, by an error or by the documented panic, and leave nothing behind
pub fn bad_calls() -> Vec<u8> {
    use std::panic::catch_unwind as c;
    let k = hkey(0);
    let x = [0x5au8; 200];
    let accepted = [
        c(|| SigningKey::from_slice(&x[..56])).is_ok(),
        c(|| SigningKey::from_slice(&x[..58])).is_ok(),
        c(|| SecretKey::from_bytes(&x[..58])).is_ok(),
        c(|| SecretKey::from_bytes(&x[..5])).is_ok(),
        c(|| VerifyingKey::from_bytes(&[])).is_ok(),
        c(|| VerifyingKey::from_bytes(&x[..114])).is_ok(),
        c(|| SigningKey::from_str("zz")).is_ok(),
        c(|| SecretKey::from_str(&"0".repeat(113))).is_ok(),
        c(|| VerifyingKey::from_str("00")).is_ok(),
        c(|| g::hex_to_signature("00")).is_ok(),
        c(|| g::hex_to_signature("xyz")).is_ok(),
        c(|| g::hex_to_message_hash("0")).is_ok(),
        c(|| g::hex_to_private_key("00")).is_ok(),
        !matches!(c(|| SigningKey::from_bytes(&k[..56])), Ok(Err(_))),
        !matches!(c(|| SigningKey::from_bytes(&x[..58])), Ok(Err(_))),
    ];
    match accepted.iter().position(|b| *b) {
        None => b"refused".to_vec(),
        Some(i) => format!("wrong-length call {} not refused", i).into_bytes(),
    }
}
/// accepted or not, of the exact answer of a verification
pub fn verdict(v: &[u8]) -> Vec<u8> {
    vec![(v == b"Ok(true)" || v == b"Ok(())") as u8]
}
pub fn step(o: Op) -> Result<Vec<u8>, Fail> {
    let want = model(o);
    let got = exec(o).map_err(|m| Fail::Violation(format!("{:?} panicked: {}", o, m)))?;
    let seen = match o {
        Op::Verify(..) | Op::VerifyErr(..) | Op::VerifyFlip(..) | Op::VerifyBad(..) => verdict(&got),
        _ => got.clone(),
    };
    if seen != want {
        return viol(format!("{:?} answered {} instead of {}", o, hex(&got), hex(&want)));
    }
    if let Some(f) = alone(&Call::H(o))? {
        if f != got {
            return viol(format!("{:?} answered {:?}, but in a fresh process {:?}", o, text(&got), text(&f)));
        }
    }
    Ok(got)
}
fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if s.chars().all(|c| !c.is_control()) => s.into(),
        _ => hex(b),
    }
}
/// the exact answer of the call as the only call of a fresh process
fn alone(c: &Call) -> Result<Option<Vec<u8>>, Fail> {
    static C: OnceLock<Vec<Mutex<HashMap<u64, Vec<u8>>>>> = OnceLock::new();
    if !crate::fresh::available() {
        return Ok(None);
    }
    let t = C.get_or_init(|| (0..64).map(|_| Default::default()).collect());
    let k = match c {
        Call::H(o) => h64(&[format!("{:?}", o).as_bytes()]),
        c => h64(&[&serde_json::to_vec(c).unwrap()]),
    };
    if let Some(v) = t[k as usize % 64].lock().unwrap().get(&k) {
        return Ok(Some(v.clone()));
    }
    let v = crate::fresh::ask(std::slice::from_ref(c))?.remove(0);
    t[k as usize % 64].lock().unwrap().insert(k, v.clone());
    Ok(Some(v))
}

pub fn run_history(ops: &[Op]) -> Res {
    let mut tr = vec![];
    for (i, &o) in ops.iter().enumerate() {
        match step(o) {
            Ok(v) => tr.extend(v),
            Err(Fail::Violation(m)) => return viol(format!("call {} of {:?}: {}", i, ops, m)),
            Err(e) => return Err(e),
        }
    }
    Ok(h64(&[&tr]))
}

/// the history in a process of its own, with nothing else going on in it
pub fn run_fresh(ops: &[Op]) -> Res {
    if !crate::fresh::available() {
        return run_history(ops);
    }
    let cs: Vec<Call> = ops.iter().map(|&o| Call::H(o)).collect();
    crate::engine::count_calls(cs.len() as u64);
    let out = crate::fresh::ask(&cs)?;
    for (i, (c, x)) in cs.iter().zip(&out).enumerate() {
        let want = c.want();
        if c.seen(x) != want {
            return viol(format!("call {} of {:?} in a fresh process answered {} instead of {}", i, ops, text(x), text(&want)));
        }
        if alone(c)?.is_some_and(|a| a != *x) {
            return viol(format!("call {} of {:?} in a fresh process answered {}, unlike the same call alone", i, ops, text(x)));
        }
    }
    Ok(h64(&out.iter().map(|x| &x[..]).collect::<Vec<_>>()))
}
/// everything the calls of the alphabet take as arguments, computed by the reference
pub fn warm() {
    for k in 0..8 {
        mpub(k);
        for m in 0..8 {
            msign(k, m);
        }
    }
}

pub fn repeat(o: Op, n: u32) -> Res {
    let mut last = vec![];
    for i in 0..n {
        match step(o) {
            Ok(v) => last = v,
            Err(Fail::Violation(m)) => return viol(format!("repetition {}: {}", i, m)),
            Err(e) => return Err(e),
        }
    }
    Ok(h64(&[&last, &n.to_le_bytes()]))
}

/// a call with its arguments spelled out
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    H(Op),
    Derive(#[serde(with = "hx")] Vec<u8>),
    DeriveRaw(#[serde(with = "hx")] Vec<u8>),
    Container(#[serde(with = "hx")] Vec<u8>),
    Text(#[serde(with = "hx")] Vec<u8>),
    Sign(#[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>),
    Prehash(#[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>),
    SignNonce(#[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>),
    /// key, signature, message
    Verify(#[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>),
    VerifyErr(#[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>, #[serde(with = "hx")] Vec<u8>),
}
impl Call {
    fn want(&self) -> Vec<u8> {
        match self {
            Call::H(o) => model(*o),
            Call::Derive(k) => r::derive_public(&arr57(k)).to_vec(),
            Call::DeriveRaw(k) => r::pub_of_secret(&arr57(k)).to_vec(),
            Call::Container(k) | Call::Text(k) => [&k[..], &r::derive_public(&arr57(k))].concat(),
            Call::Sign(k, m) => r::sign(&arr57(k), m).to_vec(),
            Call::Prehash(k, m) => [&r::sign(&arr57(k), m)[..], &r::derive_public(&arr57(k))].concat(),
            Call::SignNonce(k, n, m) => r::sign_secret_nonce(&arr57(k), &arr57(n), m).to_vec(),
            Call::Verify(p, s, m) | Call::VerifyErr(p, s, m) => vec![r::verify(p, s, m).accept() as u8],
        }
    }
    fn got(&self) -> Result<Vec<u8>, String> {
        let pair = |s: &SigningKey| [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat();
        if let Call::H(o) = self {
            return exec(*o);
        }
        lib(|| match self {
            Call::H(_) => unreachable!(),
            Call::Derive(k) => g::ed448_derive_public(&arr57(k)).to_vec(),
            Call::DeriveRaw(k) => g::secret_to_public(&arr57(k)).to_vec(),
            Call::Container(k) => pair(&SigningKey::from_slice(k)),
            Call::Text(k) => {
                let s = SigningKey::from_str(&hex(k));
                let t: SigningKey = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
                pair(&t)
            }
            Call::Sign(k, m) => g::ed448_sign(&arr57(k), m).to_vec(),
            Call::Prehash(k, m) => match SigningKey::from_slice(k).sign_prehash(m) {
                Ok(s) => s.as_slice().to_vec(),
                Err(e) => show(e),
            },
            Call::SignNonce(k, n, m) => g::sign_with_secret_and_nonce(&arr57(k), &arr57(n), m).to_vec(),
            Call::Verify(p, s, m) => show(g::ed448_verify(p, s, m)),
            Call::VerifyErr(p, s, m) => show(g::ed448_verify_with_error(p, s, m)),
        })
    }
    pub fn exact(&self) -> Vec<u8> {
        self.got().unwrap_or_else(|_| b"panic".to_vec())
    }
    /// the same call, with its arguments where the previous call had its own
    pub fn exact_in(&self, d: &mut Desk) -> Vec<u8> {
        d.run(self).unwrap_or_else(|_| b"panic".to_vec())
    }
    fn seen(&self, exact: &[u8]) -> Vec<u8> {
        match self {
            Call::Verify(..) | Call::VerifyErr(..) => verdict(exact),
            Call::H(Op::Verify(..) | Op::VerifyErr(..) | Op::VerifyFlip(..) | Op::VerifyBad(..)) => verdict(exact),
            _ => exact.to_vec(),
        }
    }
}
/// memory that every call of a sequence takes its arguments from: a caller who reuses buffers
pub struct Desk {
    key: Box<[u8; 57]>,
    nonce: Box<[u8; 57]>,
    pk: Vec<u8>,
    sig: Vec<u8>,
    msg: Vec<u8>,
    signer: Box<SigningKey>,
}
impl Desk {
    pub fn new() -> Desk {
        let room = |n| Vec::with_capacity(n);
        Desk { key: Box::new([0; 57]), nonce: Box::new([0; 57]), pk: room(4096), sig: room(4096), msg: room(1 << 17), signer: Box::new(SigningKey::from_slice(&[1; 57])) }
    }
    fn run(&mut self, c: &Call) -> Result<Vec<u8>, String> {
        let d = self;
        let lay = |v: &mut Vec<u8>, b: &[u8]| {
            v.clear();
            v.extend_from_slice(b)
        };
        match c {
            Call::H(o) => return exec(*o),
            Call::Derive(k) | Call::DeriveRaw(k) | Call::Container(k) | Call::Text(k) => d.key.copy_from_slice(k),
            Call::Sign(k, m) => {
                d.key.copy_from_slice(k);
                lay(&mut d.msg, m)
            }
            Call::Prehash(k, m) => {
                *d.signer = SigningKey::from_slice(k);
                lay(&mut d.msg, m)
            }
            Call::SignNonce(k, n, m) => {
                d.key.copy_from_slice(k);
                d.nonce.copy_from_slice(n);
                lay(&mut d.msg, m)
            }
            Call::Verify(p, s, m) | Call::VerifyErr(p, s, m) => {
                lay(&mut d.pk, p);
                lay(&mut d.sig, s);
                lay(&mut d.msg, m)
            }
        }
        let pair = |s: &SigningKey| [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat();
        lib(|| match c {
            Call::H(_) => unreachable!(),
            Call::Derive(_) => g::ed448_derive_public(&d.key).to_vec(),
            Call::DeriveRaw(_) => g::secret_to_public(&d.key).to_vec(),
            Call::Container(_) => pair(&SigningKey::from_slice(&d.key[..])),
            Call::Text(_) => {
                let t: SigningKey = serde_json::from_str(&serde_json::to_string(&SigningKey::from_slice(&d.key[..])).unwrap()).unwrap();
                pair(&t)
            }
            Call::Sign(..) => g::ed448_sign(&d.key, &d.msg).to_vec(),
            Call::Prehash(..) => match d.signer.sign_prehash(&d.msg) {
                Ok(s) => s.as_slice().to_vec(),
                Err(e) => show(e),
            },
            Call::SignNonce(..) => g::sign_with_secret_and_nonce(&d.key, &d.nonce, &d.msg).to_vec(),
            Call::Verify(..) => show(g::ed448_verify(&d.pk, &d.sig, &d.msg)),
            Call::VerifyErr(..) => show(g::ed448_verify_with_error(&d.pk, &d.sig, &d.msg)),
        })
    }
}
/// the sequence in a process of its own, every call with its arguments in the same memory
pub fn run_same_memory(cs: &[Call]) -> Res {
    crate::engine::count_calls(cs.len() as u64);
    let out = if crate::fresh::available() {
        crate::fresh::ask_in(cs, true)?
    } else {
        let mut d = Desk::new();
        cs.iter().map(|c| c.exact_in(&mut d)).collect()
    };
    for (i, (c, x)) in cs.iter().zip(&out).enumerate() {
        let want = c.want();
        if c.seen(x) != want {
            return viol(format!("call {} of the sequence, its arguments in the memory the call before had used, answered {} instead of {}", i, text(x), text(&want)));
        }
    }
    Ok(h64(&out.iter().map(|x| &x[..]).collect::<Vec<_>>()))
}
pub fn run_calls(cs: &[Call]) -> Res {
    let mut tr = vec![];
    // the sequence in a process of its own, then in this one, whatever happened here before
    let apart = if crate::fresh::available() { Some(crate::fresh::ask(cs)?) } else { None };
    for (i, c) in cs.iter().enumerate() {
        let want = c.want();
        let got = c.got().map_err(|m| Fail::Violation(format!("call {} of the sequence panicked: {}", i, m)))?;
        let a = alone(c)?;
        for (x, how) in [(apart.as_ref().map(|v| &v[i]), "in the sequence in a fresh process"), (Some(&got), "in this process")] {
            let Some(x) = x else { continue };
            if c.seen(x) != want {
                return viol(format!("call {}, {}, answered {} instead of {}", i, how, text(x), text(&want)));
            }
            if a.as_ref().is_some_and(|a| a != x) {
                return viol(format!("call {}, {}, answered {}, but alone in a fresh process {}", i, how, text(x), text(a.as_ref().unwrap())));
            }
        }
        tr.extend(got);
    }
    Ok(h64(&[&tr]))
}

/// threads take turns, one whole call at a time, in exactly the given order
pub fn run_interleaved(prog: &[Vec<Op>], order: &[u8]) -> Res {
    // fill the model first: it is not what is being scheduled
    for p in prog {
        for &o in p {
            model(o);
        }
    }
    let turn = Arc::new((Mutex::new(0usize), Condvar::new()));
    let order = Arc::new(order.to_vec());
    let hs: Vec<_> = prog
        .iter()
        .enumerate()
        .map(|(t, p)| {
            let (p, turn, order) = (p.clone(), turn.clone(), order.clone());
            std::thread::spawn(move || {
                let mut out = vec![];
                let mut err = None;
                for o in p {
                    let mut at = turn.0.lock().unwrap();
                    while *at < order.len() && order[*at] as usize != t {
                        at = turn.1.wait(at).unwrap();
                    }
                    match step(o) {
                        Ok(v) => out.extend(v),
                        Err(e) => err = err.or(Some(e)),
                    }
                    *at += 1;
                    turn.1.notify_all();
                }
                (out, err)
            })
        })
        .collect();
    crate::engine::count_calls(order.len() as u64);
    let mut tr = vec![];
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok((o, e)) => {
                tr.extend(o);
                bad = bad.or(e);
            }
            Err(_) => return Err(Fail::Engine("scheduled thread died".into())),
        }
    }
    match bad {
        Some(Fail::Violation(m)) => viol(format!("schedule {:?}: {}", order, m)),
        Some(e) => Err(e),
        None => {
            tr.extend_from_slice(&order);
            Ok(h64(&[&tr]))
        }
    }
}
pub fn probe() -> Result<(), Fail> {
    total("probe", || ()).map(|_| ())
}

/// keys of the built-in generator, made in the given way
pub fn os_keys(how: u8, n: usize) -> Result<Vec<[u8; 57]>, Fail> {
    let gen = || total("ed448_generate_key", g::ed448_generate_key);
    let mut v = vec![];
    match how {
        0 => {
            for _ in 0..n {
                v.push(gen()?);
            }
        }
        1 => {
            let bar = std::sync::Barrier::new(n);
            let all: Vec<_> = std::thread::scope(|sc| {
                let h: Vec<_> = (0..n)
                    .map(|_| {
                        sc.spawn(|| {
                            bar.wait();
                            (0..50).map(|_| gen()).collect::<Result<Vec<_>, Fail>>()
                        })
                    })
                    .collect();
                h.into_iter().map(|h| h.join()).collect()
            });
            for k in all {
                v.extend(k.map_err(|_| Fail::Engine("join".into()))??);
            }
        }
        2 => {
            // nobody else is inside the crate at the moment of the fork: what locks held by other
            // threads then do to the child is not the point here
            static ALONE: Mutex<()> = Mutex::new(());
            let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
            v.push(gen()?);
            for b in crate::fresh::forked_output(n, &|| (0..3).flat_map(|_| g::ed448_generate_key()).collect()).map_err(Fail::Engine)? {
                if b.len() != 171 {
                    return viol("a forked process did not deliver its keys");
                }
                v.extend(b.chunks(57).map(|c| <[u8; 57]>::try_from(c).unwrap()));
            }
            v.push(gen()?);
        }
        _ => {
            let me = std::env::current_exe().map_err(|e| Fail::Engine(e.to_string()))?;
            for _ in 0..n {
                let o = std::process::Command::new(&me).arg("genkeys").output().map_err(|e| Fail::Engine(e.to_string()))?;
                if !o.status.success() || o.stdout.len() != 171 {
                    return viol(format!("a new process did not deliver its keys: {:?}", o.status));
                }
                v.extend(o.stdout.chunks(57).map(|c| <[u8; 57]>::try_from(c).unwrap()));
            }
        }
    }
    Ok(v)
}
