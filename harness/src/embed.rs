//! Calls made from inside other calls, and arguments wherever the caller happens to have them.
//!
//! Three entry points call back into code of the caller: the random source, the serializer and the
//! deserializer. What the caller does there (use the library, hand over to a thread that does, fail,
//! unwind) is part of the histories a result may not depend on.
use crate::engine::{lib, total, viol, Fail, Res};
use crate::history::{hkey, step, Op};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::Serialize;
use std::cell::RefCell;
use std::fmt::{self, Write};

pub const OUTERS: u64 = 7;
pub const PLACES: u64 = 5;

/// what happens when the library calls back; remembers the first thing that went wrong
struct Hook {
    inner: Op,
    place: u8,
    seen: RefCell<Option<Fail>>,
    ran: RefCell<u32>,
}
impl Hook {
    /// false: the callback is to fail
    fn fire(&self) -> bool {
        *self.ran.borrow_mut() += 1;
        if *self.ran.borrow() > 3 {
            return true;
        }
        let f = match self.place {
            0 => step(self.inner).err(),
            1 => {
                let o = self.inner;
                match std::thread::spawn(move || step(o).err()).join() {
                    Ok(e) => e,
                    Err(_) => Some(Fail::Engine("inner thread died".into())),
                }
            }
            2 => panic!("the caller's code unwinds"),
            3 => return false,
            _ => {
                let e = step(self.inner).err();
                if e.is_none() {
                    panic!("the caller's code unwinds");
                }
                e
            }
        };
        if let Some(f) = f {
            self.seen.borrow_mut().get_or_insert(f);
        }
        true
    }
}
struct Source<'a> {
    rng: crate::case::ScriptRng,
    hook: &'a Hook,
}
impl rand::RngCore for Source<'_> {
    fn next_u32(&mut self) -> u32 {
        self.hook.fire();
        self.rng.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.hook.fire();
        self.rng.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let h = dest.len() / 2;
        self.rng.fill_bytes(&mut dest[..h]);
        if !self.hook.fire() {
            panic!("the source is exhausted");
        }
        self.rng.fill_bytes(&mut dest[h..]);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        let h = dest.len() / 2;
        self.rng.fill_bytes(&mut dest[..h]);
        if !self.hook.fire() {
            return Err(rand::Error::from(std::num::NonZeroU32::new(rand::Error::CUSTOM_START).unwrap()));
        }
        self.rng.fill_bytes(&mut dest[h..]);
        Ok(())
    }
}
impl rand::CryptoRng for Source<'_> {}

struct Sink<'a> {
    out: String,
    hook: &'a Hook,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if !self.hook.fire() {
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
struct Shown<'a, T>(&'a T);
impl<T: Serialize> fmt::Display for Shown<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.serialize(f)
    }
}
struct Doc<'a> {
    text: &'a str,
    hook: &'a Hook,
}
impl<'de> Deserializer<'de> for Doc<'_> {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        if !self.hook.fire() {
            return Err(de::Error::custom("no document"));
        }
        v.visit_str(self.text)
    }
    fn is_human_readable(&self) -> bool {
        self.hook.fire();
        true
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn shown<T: Serialize>(t: &T, hook: &Hook) -> Option<String> {
    let mut s = Sink { out: String::new(), hook };
    write!(s, "{}", Shown(t)).ok().map(|_| s.out)
}
fn read<'a, T: Deserialize<'a>>(text: &str, hook: &Hook) -> Option<T> {
    T::deserialize(Doc { text, hook }).ok()
}

pub fn run_nested(outer: u8, k: u8, inner: Op, place: u8) -> Res {
    let key = hkey(k);
    let pk = r::derive_public(&key);
    let text = hex(&key);
    let hook = Hook { inner, place, seen: RefCell::new(None), ran: RefCell::new(0) };
    let pair = |s: SigningKey| [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat();
    // the outer call: Ok(None) if it was refused
    let got = lib(|| match outer {
        0 => {
            let rng = crate::case::ScriptRng { data: key.to_vec(), pos: 0, mode: 0 };
            Some(pair(SigningKey::random(&mut Source { rng, hook: &hook })))
        }
        1 => shown(&SigningKey::from_slice(&key), &hook).map(String::into_bytes),
        2 => shown(&SecretKey::from_bytes(&key), &hook).map(String::into_bytes),
        3 => shown(&VerifyingKey::from_bytes(&key), &hook).map(String::into_bytes),
        4 => read::<SigningKey>(&text, &hook).map(pair),
        5 => read::<SecretKey>(&text, &hook).map(|s| pair(SigningKey::from(s))),
        _ => read::<VerifyingKey>(&text, &hook).map(|v| v.as_bytes().to_vec()),
    });
    if let Some(f) = hook.seen.borrow_mut().take() {
        return Err(match f {
            Fail::Violation(m) => Fail::Violation(format!("called from inside another call: {}", m)),
            e => e,
        });
    }
    if *hook.ran.borrow() == 0 {
        return viol("the library answered without asking its random source, serializer or deserializer");
    }
    let fails = place >= 2;
    match got {
        Err(_) if fails => {}
        Ok(None) if fails => {}
        Err(m) => return viol(format!("panicked with a call inside: {}", m)),
        Ok(None) => return viol("refused with a call inside"),
        Ok(Some(b)) => {
            let good = match outer {
                0 => b.len() == 114 && b[57..] == r::derive_public(&arr57(&b[..57])),
                1..=3 => b == text.as_bytes(),
                4 | 5 => b == [&key[..], &pk].concat(),
                _ => b == key,
            };
            if !good {
                return viol(format!("answered {} with a call inside", hex(&b)));
            }
        }
    }
    // and afterwards
    let a = step(inner)?;
    let b = step(Op::Prehash(k, 3))?;
    step(Op::Random(k))?;
    Ok(h64(&[&a, &b, &[outer, place, k]]))
}

pub const PLACED: u64 = 7;
/// arguments laid out by the caller: `at[i]` is the distance of argument i from a 64-byte boundary
pub fn run_placed(what: u8, k: u8, m: u32, at: [u8; 3]) -> Res {
    let (key, nonce) = (hkey(k), hkey(k + 1));
    let msg = stream(m as u64 + 77, m as usize);
    let pk = r::derive_public(&key);
    let put = |b: &[u8], at: u8| {
        let mut v = vec![0xa5u8; b.len() + 192];
        let o = v.as_ptr().align_offset(64) + at as usize;
        v[o..o + b.len()].copy_from_slice(b);
        (v, o)
    };
    fn a57(v: &(Vec<u8>, usize)) -> &[u8; 57] {
        (&v.0[v.1..v.1 + 57]).try_into().unwrap()
    }
    fn sl(v: &(Vec<u8>, usize), n: usize) -> &[u8] {
        &v.0[v.1..v.1 + n]
    }
    let mm = put(&msg, at[0]);
    let msg_ = sl(&mm, msg.len());
    let (got, want) = match what {
        0 => {
            let kk = put(&key, at[1]);
            (total("ed448_derive_public", || g::ed448_derive_public(a57(&kk)).to_vec())?, pk.to_vec())
        }
        1 => {
            let kk = put(&key, at[1]);
            (total("ed448_sign", || g::ed448_sign(a57(&kk), msg_).to_vec())?, r::sign(&key, &msg).to_vec())
        }
        2 => {
            let (kk, nn) = (put(&key, at[1]), put(&nonce, at[2]));
            (
                total("sign_with_secret_and_nonce", || g::sign_with_secret_and_nonce(a57(&kk), a57(&nn), msg_).to_vec())?,
                r::sign_secret_nonce(&key, &nonce, &msg).to_vec(),
            )
        }
        3 => {
            let kk = put(&key, at[1]);
            let s = total("SigningKey::from_bytes", || SigningKey::from_bytes(sl(&kk, 57)))?;
            let s = s.map_err(|e| Fail::Violation(format!("SigningKey::from_bytes: {:?}", e)))?;
            let x = total("sign_prehash", || s.sign_prehash(msg_))?;
            let x = x.map_err(|e| Fail::Violation(format!("sign_prehash: {:?}", e)))?;
            (x.as_slice().to_vec(), [&r::sign(&key, &msg)[..], &pk].concat())
        }
        4 | 5 => {
            let (pp, ss) = (put(&pk, at[1]), put(&r::sign(&key, &msg), at[2]));
            let (p, s) = (sl(&pp, 57), sl(&ss, 114));
            let ok = if what == 4 {
                matches!(total("ed448_verify", || g::ed448_verify(p, s, msg_))?, Ok(true))
            } else {
                total("ed448_verify_with_error", || g::ed448_verify_with_error(p, s, msg_))?.is_ok()
            };
            (vec![ok as u8], vec![1])
        }
        _ => {
            let t = hex(&key);
            let tt = put(t.as_bytes(), at[1]);
            let s = std::str::from_utf8(sl(&tt, 114)).unwrap();
            let x = total("SigningKey::from_str", || SigningKey::from_str(s))?;
            ([&x.to_bytes()[..], x.verifying_key().as_bytes()].concat(), [&key[..], &pk].concat())
        }
    };
    if got != want {
        return viol(format!("with its arguments {:?} bytes after a boundary, the call answered {} instead of {}", at, hex(&got), hex(&want)));
    }
    Ok(h64(&[&got, &[what, k], &at]))
}

/// one piece of memory read as key, signature and message at once: message = mem[from..to]
pub fn run_overlap(what: u8, k: u8, from: u16, to: u16) -> Res {
    let key = hkey(k);
    let pk = r::derive_public(&key);
    let sub = |m: &[u8]| -> Vec<u8> { m[(from as usize).min(m.len())..(to as usize).min(m.len())].to_vec() };
    let (got, want) = match what {
        0 => {
            // the message is part of the key's own memory
            let mem: Vec<u8> = [&key[..], &stream(5, 57)].concat();
            let m = sub(&mem);
            let kk: &[u8; 57] = mem[..57].try_into().unwrap();
            let s = &mem[from as usize..to as usize];
            (total("ed448_sign", || g::ed448_sign(kk, s).to_vec())?, r::sign(&key, &m).to_vec())
        }
        1 => {
            // key, nonce and message in one piece, overlapping
            let mem: Vec<u8> = [&key[..], &stream(6, 57)].concat();
            let m = sub(&mem);
            let o = (from % 58) as usize;
            let (kk, nn): (&[u8; 57], &[u8; 57]) = (mem[..57].try_into().unwrap(), mem[o..o + 57].try_into().unwrap());
            let s = &mem[from as usize..to as usize];
            (total("sign_with_secret_and_nonce", || g::sign_with_secret_and_nonce(kk, nn, s).to_vec())?, r::sign_secret_nonce(&key, nn, &m).to_vec())
        }
        _ => {
            // an extended signature carries its own key; the message follows in the same memory
            let msg = stream(9, 57);
            let mem: Vec<u8> = [&r::sign(&key, &msg)[..], &pk, &msg].concat();
            let s = &mem[from as usize..to as usize];
            let (pubk, sig) = (&mem[114..171], &mem[..171]);
            let a = total("ed448_verify", || g::ed448_verify(pubk, sig, s))?;
            let b = total("ed448_verify_with_error", || g::ed448_verify_with_error(pubk, sig, s))?;
            (
                vec![matches!(a, Ok(true)) as u8, b.is_ok() as u8],
                vec![r::verify(pubk, sig, s).accept() as u8; 2],
            )
        }
    };
    if got != want {
        return viol(format!("with its arguments sharing memory, the call answered {} instead of {}", hex(&got), hex(&want)));
    }
    Ok(h64(&[&got, &from.to_le_bytes(), &to.to_le_bytes()]))
}
