//! The bounded spaces of each property. Every space is enumerated completely.
use crate::case::*;
use crate::engine::Space;
use crate::history::Op;
use crate::refm as r;
use crate::util::*;

pub struct Prop {
    pub id: &'static str,
    pub spaces: fn(bool) -> Vec<Space>,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", spaces: c01 },
    Prop { id: "C02", spaces: c02 },
    Prop { id: "C03", spaces: c03 },
    Prop { id: "C04", spaces: c04 },
    Prop { id: "C05", spaces: c05 },
    Prop { id: "C06", spaces: c06 },
    Prop { id: "C07", spaces: c07 },
    Prop { id: "C08", spaces: c08 },
    Prop { id: "C09", spaces: c09 },
    Prop { id: "C10", spaces: c10 },
    Prop { id: "C11", spaces: c11 },
    Prop { id: "C12", spaces: c12 },
    Prop { id: "C13", spaces: c13 },
    Prop { id: "C14", spaces: c14 },
    Prop { id: "C15", spaces: c15 },
    Prop { id: "C16", spaces: c16 },
    Prop { id: "C17", spaces: c17 },
];

// ------------------------------------------------------------------ alphabets

/// key `base` with byte pos set to val, the form bit kept
fn pos_key(base: [u8; 57], pos: usize, val: u8) -> Vec<u8> {
    let mut k = base;
    if pos == 56 {
        k[56] = (val & 0x7f) | (base[56] & 0x80);
    } else {
        k[pos] = val;
    }
    k.to_vec()
}
fn n_shl(x: u64, i: usize) -> r::N {
    let mut n = r::ZERO;
    n[i / 64] = x << (i % 64);
    if i % 64 != 0 && i / 64 + 1 < 7 {
        n[i / 64 + 1] = x >> (64 - i % 64);
    }
    n
}
fn pow2(i: usize) -> r::N {
    n_shl(1, i)
}
fn n_of_bytes(b: &[u8]) -> r::N {
    r::n_from_le56(b)
}
/// scalars where carries, borrows and reductions happen
fn edge_scalars(dense: bool) -> Vec<r::N> {
    let mut v: Vec<r::N> = vec![];
    for i in 0..40u64 {
        v.push(r::small(i));
        v.push(r::sbb(&r::Q, &r::small(i + 1)).0);
    }
    let half = r::q_half();
    let quarter = r::q_quarter();
    for b in [half, quarter, r::qadd(&half, &quarter)] {
        for d in 0..4u64 {
            v.push(r::qadd(&b, &r::small(d)));
            v.push(r::qsub(&b, &r::small(d)));
        }
    }
    for i in 0..446 {
        if !dense && i % 16 > 1 && i % 16 < 15 && i % 28 > 0 && i < 440 {
            continue;
        }
        let p = pow2(i);
        v.push(r::q_reduce(&p));
        v.push(r::qsub(&p, &r::ONE));
        v.push(r::qsub(&r::ZERO, &p));
        if dense {
            v.push(r::qadd(&p, &r::ONE));
            v.push(r::qsub(&r::ONE, &p));
        }
    }
    // words shared with q down to word k, then one off, then all zeros or all ones
    let qw = w_of_n(&r::Q);
    for k in 0..14 {
        for d in [-1i64, 0, 1] {
            for low in [0u32, u32::MAX] {
                let mut w = qw;
                let x = qw[k] as i64 + d;
                if x < 0 || x > u32::MAX as i64 {
                    continue;
                }
                w[k] = x as u32;
                for j in 0..k {
                    w[j] = low;
                }
                let n = n_of_w(&w);
                v.push(r::q_reduce(&n));
                v.push(r::qsub(&r::ZERO, &n));
            }
        }
    }
    for t in 0..8 {
        v.push(r::q_reduce(&n_of_bytes(&stream(500 + t, 56))));
    }
    v.sort();
    v.dedup();
    v
}
/// word patterns {0, ffffffff}^14, clipped below q
fn word_pattern(i: u64) -> r::N {
    let mut w = [0u32; 14];
    for (k, x) in w.iter_mut().enumerate() {
        if i >> k & 1 == 1 {
            *x = if k == 13 { 0x3fff_fffe } else { u32::MAX };
        }
    }
    n_of_w(&w)
}
/// adjustment both signed-digit multiplications apply: s -> (s + 2^450 - 1)/2
fn from_digits(x: &r::N) -> r::N {
    let adj = r::q_reduce(&[u64::MAX, u64::MAX, u64::MAX, u64::MAX, u64::MAX, u64::MAX, u64::MAX, 3]);
    r::qsub(&r::qadd(x, x), &adj)
}
/// a scalar that point_by_secret can reach
fn pt_scalar(t: u64) -> r::N {
    r::scalar_of(&key(t, true))
}
fn edge_points() -> Vec<r::N> {
    let mut v = vec![pt_scalar(41), pt_scalar(42)];
    for c in [0u64, 1, 2, 3, 4, 5, 8] {
        for n in [r::small(c), r::qsub(&r::ZERO, &r::small(c)), r::qmul(&r::small(c), &r::q_quarter())] {
            if raw_key_of(&n).is_some() {
                v.push(n);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn msg_bytes_pos(i: u64, len: usize) -> Msg {
    // byte i/256 of a fixed message takes every value
    let mut m = stream(31, len);
    m[(i / 256) as usize] = i as u8;
    Msg::Lit(m)
}
fn short_msg(i: u64) -> Msg {
    // all messages of 0, 1, 2 bytes in order
    if i == 0 {
        Msg::Lit(vec![])
    } else if i < 257 {
        Msg::Lit(vec![(i - 1) as u8])
    } else {
        let j = i - 257;
        Msg::Lit(vec![(j >> 8) as u8, j as u8])
    }
}
const SHORT: u64 = 1 + 256 + 65536;
fn big_lens(max_log: u32) -> Vec<usize> {
    let mut v = vec![];
    for k in 12..=max_log {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as usize);
        }
        // the same with what is hashed before the message
        for pre in [10usize, 57, 67, 114, 124] {
            if k < 18 {
                v.extend([(1 << k) - pre - 1, (1 << k) - pre + 1]);
            }
            v.push((1 << k) - pre);
        }
        for (m, top) in [(3usize, 19), (5, 17), (7, 17)] {
            if k < top {
                v.extend([0usize, 10, 67, 124].map(|pre| (m << k) - pre));
            }
        }
    }
    for n in [10_000usize, 20_000, 50_000, 100_000, 1_000_000] {
        v.extend([n - 1, n, n + 1]);
    }
    // around the block boundaries of SHAKE256 (136 bytes), with the 10-byte prefix and the
    // 57/114 bytes hashed before the message
    for blk in [31usize, 61, 121] {
        for pre in [0, 10, 67, 124] {
            for d in 0..3 {
                v.push(136 * blk - pre - 1 + d);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// messages with structure: the signer's own data, protocol constants, constant fills, runs of
/// zeros or ones at either end, single bits, texts; all different from each other
fn structured(k: &[u8; 57], dense: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let pk = r::derive_public(k).to_vec();
    let sig = r::sign(k, b"").to_vec();
    let mut h = [0u8; 114];
    r::shake256(&[&k[..]], &mut h);
    let dom = b"SigEd448\0\0".to_vec();
    let cat = |a: &[u8], b: &[u8]| [a, b].concat();
    let parts: Vec<Vec<u8>> = vec![
        k.to_vec(),
        k[..56].to_vec(),
        pk.clone(),
        sig.clone(),
        sig[..57].to_vec(),
        sig[57..].to_vec(),
        cat(&sig, &pk),
        h.to_vec(),
        h[..57].to_vec(),
        h[57..].to_vec(),
        dom[..8].to_vec(),
        dom.clone(),
        b"SigEd448\x01\0".to_vec(),
        b"SigEd25519 no Ed25519 collisions".to_vec(),
        hex(&pk).into_bytes(),
        cat(&cat(&dom, &sig[..57]), &pk),
        cat(&dom, &h[57..]),
        r::to_le57(&r::Q).to_vec(),
        r::to_le57(&r::P).to_vec(),
        r::base_mul(&r::ZERO).encode().to_vec(),
        r::base_mul(&r::ONE).encode().to_vec(),
        vec![0; 57],
        vec![255; 57],
    ];
    for p in &parts {
        v.push(p.clone());
        v.push(cat(p, &[0]));
        v.push(cat(&[0], p));
        v.push(p[..p.len() - 1].to_vec());
        v.push(p[1..].to_vec());
        v.push(p.iter().rev().copied().collect());
        for o in &parts {
            v.push(cat(p, o));
        }
    }
    let lens: Vec<usize> = if dense { (1..145).collect() } else { vec![1, 2, 3, 4, 8, 16, 20, 28, 32, 33, 48, 57, 64, 114, 136] };
    for n in lens {
        for b in 0..=255u8 {
            v.push(vec![b; n]);
        }
    }
    for n in [20usize, 32, 57, 64, 114] {
        for z in 0..=n {
            for b in [0u8, 255] {
                let s = stream(77, n);
                let mut a = s.clone();
                a[..z].fill(b);
                v.push(a);
                let mut a = s;
                a[n - z..].fill(b);
                v.push(a);
            }
        }
    }
    for n in [32usize, 64] {
        for b in 0..8 * n {
            let mut a = vec![0u8; n];
            a[b / 8] = 1 << (b % 8);
            v.push(a.clone());
            v.push(a.iter().map(|x| !x).collect());
        }
    }
    for t in ["a", "abc", "ABC", "Hello", "0", "00", "0x", "0x00", "null", "\u{feff}", "\u{e9}", "e\u{301}", "{}", "\"\"", "%00", "\\0"] {
        for pre in ["", " ", "\t", "\n", "\r\n", "\0", "\u{19}"] {
            for post in ["", " ", "\t", "\n", "\r\n", "\0", "\0\0"] {
                v.push(format!("{}{}{}", pre, t, post).into_bytes());
            }
        }
    }
    for period in 2..17usize {
        for n in [32usize, 57, 64, 136, 272] {
            let s = stream(78, period);
            v.push((0..n).map(|i| s[i % period]).collect());
        }
    }
    v.sort();
    v.dedup();
    v
}
/// edits of a message that a careless normalisation would not see
fn near(m: &[u8], how: u64) -> Vec<u8> {
    let mut a = m.to_vec();
    match how {
        0 => (),
        1 => a.push(0),
        2 => a.push(0x80),
        3 => {
            a.pop();
        }
        4 => {
            if !a.is_empty() {
                a.remove(0);
            }
        }
        5 => a.insert(0, 0),
        6 => a.reverse(),
        7 => {
            if let Some(x) = a.last_mut() {
                *x ^= 0x20
            }
        }
        8 => {
            if let Some(x) = a.first_mut() {
                *x ^= 0x80
            }
        }
        9 => {
            let n = a.len();
            a.truncate(n / 2)
        }
        10 => a = [&a[..], &a[..]].concat(),
        _ => {
            while matches!(a.last(), Some(0 | b' ' | b'\n' | b'\r' | b'\t')) {
                a.pop();
            }
        }
    }
    a
}

// ------------------------------------------------------------------ C01

fn c01(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for raw in [false, true] {
        let f = if raw { "raw" } else { "seed" };
        let vals = if th { 256 } else { 128 };
        v.push(Space::new(
            &format!("sv-key-bytes-{}", f),
            "every byte position of the key x byte values (thorough 256, quick every second)",
            57 * vals,
            move |i| Case::SignVerify {
                key: pos_key(key(1, raw), (i / vals) as usize, ((i % vals) * (256 / vals)) as u8 ^ raw as u8),
                msg: Msg::Pat(32, 5),
            },
        ));
        let l = if th { 70_000 } else { 17_000 };
        v.push(Space::new(
            &format!("sv-msg-lengths-{}", f),
            "every message length from 0",
            l,
            move |i| Case::SignVerify { key: key(2, raw).to_vec(), msg: Msg::Pat(i as usize, i) },
        ));
    }
    for raw in [false, true] {
        let st = structured(&key(2, raw), th);
        v.push(Space::new(
            &format!("sv-structured-messages-{}", if raw { "raw" } else { "seed" }),
            "messages made of the signer's own data, protocol constants, constant fills, runs, single bits, texts",
            st.len() as u64,
            move |i| Case::SignVerify { key: key(2, raw).to_vec(), msg: Msg::Lit(st[i as usize].clone()) },
        ));
    }
    v.push(Space::new(
        "sv-short-messages",
        "all messages of 0 and 1 byte (thorough: 2 bytes too)",
        if th { SHORT } else { 257 + 16384 },
        |i| Case::SignVerify { key: key(3, i % 2 == 1).to_vec(), msg: short_msg(i) },
    ));
    v.push(Space::new(
        "sv-counter-keys",
        "keys that are a counter, both forms",
        if th { 393_216 } else { 65_536 },
        |i| {
            let mut k = [0u8; 57];
            let at = (i / 2 % 3) as usize * 20;
            let c = i / 6;
            k[at + 1..at + 4].copy_from_slice(&c.to_le_bytes()[..3]);
            if i & 1 == 1 {
                k[56] |= 0x80
            }
            Case::SignVerify { key: k.to_vec(), msg: Msg::Pat(3, i) }
        },
    ));
    v.push(Space::new("sv-word-pattern-raw", "raw keys with 4-byte words all 00 or all ff", 1 << if th { 14 } else { 11 }, move |i| {
        let i = if th { i } else { i * 8 + i % 8 };
        let mut k = [0u8; 57];
        for w in 0..14 {
            if i >> w & 1 == 1 {
                k[4 * w..4 * w + 4].fill(0xff)
            }
        }
        k[56] = 0x80;
        Case::SignVerify { key: k.to_vec(), msg: Msg::Lit(vec![1]) }
    }));
    let b = big_lens(if th { 26 } else { 23 });
    v.push(Space::new("sv-big-messages", "lengths around powers of two and hash block boundaries", b.len() as u64 * 2, move |i| {
        Case::SignVerify { key: key(4, i & 1 == 1).to_vec(), msg: Msg::Pat(b[(i / 2) as usize], 9) }
    }));
    v.push(Space::new("sv-seed-entry", "sign_by_private / private_to_public, either top bit, key bytes x 16 values", 57 * 16, |i| {
        let mut k = key(5, false);
        k[(i / 16) as usize] = (i % 16) as u8 * 17;
        Case::SeedSignVerify { key: k.to_vec(), msg: Msg::Pat((i % 7) as usize, i) }
    }));
    v.push(Space::new(
        "sv-nonce-entry",
        "sign_with_secret_and_nonce: key and nonce byte positions x 16 values",
        2 * 57 * 16,
        |i| {
            let (mut k, mut n) = (key(6, true), key(7, false));
            let p = (i / 16) as usize;
            let val = (i % 16) as u8 * 17;
            if p < 57 {
                k[p] = val
            } else {
                n[p - 57] = val
            }
            Case::NonceSignVerify { key: k.to_vec(), nonce: n.to_vec(), msg: Msg::Pat(20, 1) }
        },
    ));
    v
}

// ------------------------------------------------------------------ C02

fn c02(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for raw in [false, true] {
        let f = if raw { "raw" } else { "seed" };
        v.push(Space::new(
            &format!("sig-key-bytes-{}", f),
            "every byte position of the key x every value",
            57 * 256,
            move |i| Case::SignExact {
                key: pos_key(key(1, raw), (i / 256) as usize, i as u8),
                msg: Msg::Pat(32, 5),
            },
        ));
        v.push(Space::new(
            &format!("sig-msg-lengths-{}", f),
            "every message length from 0",
            if th { 70_000 } else { 17_000 },
            move |i| Case::SignExact { key: key(2, raw).to_vec(), msg: Msg::Pat(i as usize, i) },
        ));
        v.push(Space::new(
            &format!("sig-fill-lengths-{}", f),
            "constant messages of 0x00 and 0xff bytes, every length from 0",
            if th { 6000 } else { 1200 },
            move |i| Case::SignExact {
                key: key(8, raw).to_vec(),
                msg: Msg::Fill((i / 2) as usize, if i & 1 == 0 { 0 } else { 255 }),
            },
        ));
        v.push(Space::new(
            &format!("sig-msg-bytes-{}", f),
            "every byte of a 64-byte message x every value",
            64 * 256,
            move |i| Case::SignExact { key: key(9, raw).to_vec(), msg: msg_bytes_pos(i, 64) },
        ));
        v.push(Space::new(
            &format!("sig-short-messages-{}", f),
            "all messages of 0 and 1 bytes; 2 bytes all (thorough) or a quarter",
            if th { SHORT } else { 257 + 16384 },
            move |i| Case::SignExact { key: key(3, raw).to_vec(), msg: short_msg(if th || i < 257 { i } else { 257 + (i - 257) * 4 }) },
        ));
        let b = big_lens(if th { 26 } else { 23 });
        v.push(Space::new(
            &format!("sig-big-messages-{}", f),
            "lengths around powers of two and hash block boundaries",
            b.len() as u64,
            move |i| Case::SignExact { key: key(4, raw).to_vec(), msg: Msg::Pat(b[i as usize], 9) },
        ));
    }
    for raw in [false, true] {
        let st = structured(&key(8, raw), th);
        v.push(Space::new(
            &format!("sig-structured-messages-{}", if raw { "raw" } else { "seed" }),
            "messages made of the signer's own data, protocol constants, constant fills, runs, single bits, texts",
            st.len() as u64,
            move |i| Case::SignExact { key: key(8, raw).to_vec(), msg: Msg::Lit(st[i as usize].clone()) },
        ));
    }
    v.push(Space::new("sig-counter-messages", "4-byte counter messages, both key forms: rare values of nonce, challenge and response", if th { 1 << 20 } else { 100_000 }, |i| {
        Case::SignExact { key: key(12, i & 1 == 1).to_vec(), msg: Msg::Lit((i as u32).to_be_bytes().to_vec()) }
    }));
    v.push(Space::new("sig-word-pattern-raw", "raw keys with 4-byte words all 00 or all ff", 1 << 14, |i| {
        let mut k = [0u8; 57];
        for w in 0..14 {
            if i >> w & 1 == 1 {
                k[4 * w..4 * w + 4].fill(0xff)
            }
        }
        k[56] = 0x80;
        Case::SignExact { key: k.to_vec(), msg: Msg::Lit(vec![1]) }
    }));
    v.push(Space::new("sig-bit-pair-seed", "seeds with at most two bits set, on zero", 456 * 457 / 2 / if th { 1 } else { 8 }, move |i| {
        let i = i * if th { 1 } else { 8 };
        let (mut a, mut left) = (0u64, i);
        while left >= 456 - a {
            left -= 456 - a;
            a += 1;
        }
        let b = a + left;
        let mut k = [0u8; 57];
        k[a as usize / 8] |= 1 << (a % 8);
        k[b as usize / 8] |= 1 << (b % 8);
        Case::SignExact { key: k.to_vec(), msg: Msg::Lit(vec![]) }
    }));
    v.push(Space::new("sig-nonce-key-bytes", "sign_with_secret_and_nonce: nonce byte positions x 256, key byte positions x 64", 57 * 256 + 57 * 64, |i| {
        let (mut k, mut n) = (key(6, true), key(7, false));
        if i < 57 * 256 {
            n[(i / 256) as usize] = i as u8
        } else {
            let j = i - 57 * 256;
            k[(j / 64) as usize] = (j % 64) as u8 * 4 + 3
        }
        Case::NonceSignExact { key: k.to_vec(), nonce: n.to_vec(), msg: Msg::Pat(20, 1) }
    }));
    {
        let st = structured(&key(6, true), th);
        v.push(Space::new("sig-nonce-structured", "sign_with_secret_and_nonce: structured messages", st.len() as u64, move |i| {
            Case::NonceSignExact { key: key(6, true).to_vec(), nonce: key(10, false).to_vec(), msg: Msg::Lit(st[i as usize].clone()) }
        }));
    }
    v.push(Space::new("sig-nonce-related", "sign_with_secret_and_nonce: nonce equal to the key, to zero, to its public key, to its complement, ..", 8 * 64, |i| {
        let k = key(13 + i / 8, i / 8 % 2 == 1);
        let n: Vec<u8> = match i % 8 {
            0 => k.to_vec(),
            1 => vec![0; 57],
            2 => r::pub_of_secret(&k).to_vec(),
            3 => k.iter().map(|x| !x).collect(),
            4 => k.iter().rev().copied().collect(),
            5 => vec![255; 57],
            6 => r::to_le57(&r::Q).to_vec(),
            _ => r::derive_public(&k).to_vec(),
        };
        Case::NonceSignExact { key: k.to_vec(), nonce: n, msg: Msg::Pat((i % 5) as usize * 16, i) }
    }));
    v.push(Space::new("sig-nonce-lengths", "sign_with_secret_and_nonce: every message length", if th { 70_000 } else { 17_000 }, |i| {
        Case::NonceSignExact { key: key(6, i & 1 == 1).to_vec(), nonce: key(10, i & 2 == 2).to_vec(), msg: Msg::Pat(i as usize, i) }
    }));
    v
}

// ------------------------------------------------------------------ C03

fn raw_of_n(n: &r::N) -> Vec<u8> {
    let mut k = r::to_le57(n);
    k[56] = 0x80;
    k.to_vec()
}
fn c03(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for raw in [false, true] {
        let f = if raw { "raw" } else { "seed" };
        for t in 0..2 {
            v.push(Space::new(
                &format!("pub-key-bytes-{}-{}", f, t),
                "every byte position x every value",
                57 * 256,
                move |i| Case::Derive { key: pos_key(key(1 + 50 * t, raw), (i / 256) as usize, i as u8), all_routes: false },
            ));
        }
        v.push(Space::new(
            &format!("pub-all-routes-{}", f),
            "every derivation route, every byte position x 16 values",
            57 * 16,
            move |i| Case::Derive { key: pos_key(key(11, raw), (i / 16) as usize, (i % 16) as u8 * 17), all_routes: true },
        ));
        v.push(Space::new(
            &format!("pub-byte-fill-{}", f),
            "keys with all bytes equal, and counters in the last bytes",
            256 + 1024,
            move |i| {
                let mut k = if i < 256 { [i as u8; 57] } else { [0u8; 57] };
                if i >= 256 {
                    k[55] = (i - 256) as u8;
                    k[54] = ((i - 256) >> 8) as u8;
                }
                k[56] = (k[56] & 0x7f) | if raw { 0x80 } else { 0 };
                Case::Derive { key: k.to_vec(), all_routes: true }
            },
        ));
    }
    v.push(Space::new("pub-counter-seeds", "seeds that are a 16-bit counter", 65536, |i| {
        let mut k = [0u8; 57];
        k[0] = i as u8;
        k[1] = (i >> 8) as u8;
        Case::Derive { key: k.to_vec(), all_routes: false }
    }));
    v.push(Space::new("pub-word-pattern-raw", "raw keys {00000000, ffffffff}^14", 1 << 14, |i| {
        let mut k = [0u8; 57];
        for w in 0..14 {
            if i >> w & 1 == 1 {
                k[4 * w..4 * w + 4].fill(0xff)
            }
        }
        k[56] = 0x80;
        Case::Derive { key: k.to_vec(), all_routes: false }
    }));
    v.push(Space::new("pub-two-powers-raw", "raw scalars 2^i + 2^j and complement", 448 * 448 / if th { 1 } else { 2 }, move |i| {
        let i = if th { i } else { i * 2 + (i / 224) % 2 };
        let (a, b) = ((i / 448) as usize, (i % 448) as usize);
        let n = r::adc(&pow2(a), &pow2(b)).0;
        let n = if a < b { n } else { r::sbb(&[u64::MAX; 7], &n).0 };
        Case::Derive { key: raw_of_n(&n), all_routes: false }
    }));
    v.push(Space::new("pub-near-q-multiples", "raw scalars k*q + 4d for the k in the clamped range", 2 * 4096, |i| {
        let k = 2 + i / 4096;
        let d = (i % 4096) as i64 - 2048;
        let mut n = r::ZERO;
        for _ in 0..k {
            n = r::adc(&n, &r::Q).0;
        }
        let d4 = r::small((d.unsigned_abs()) * 4);
        let n = if d < 0 { r::sbb(&n, &d4).0 } else { r::adc(&n, &d4).0 };
        Case::Derive { key: raw_of_n(&n), all_routes: false }
    }));
    v.push(Space::new("pub-edge-scalars-raw", "raw keys for every edge scalar the clamped range can express", 0, |_| unreachable!()));
    v.pop();
    let es: Vec<Vec<u8>> = edge_scalars(true).iter().filter_map(raw_key_of).map(|k| k.to_vec()).collect();
    v.push(Space::new("pub-edge-scalars-raw", "raw keys for every edge scalar (0, small, 2^i, q-2^i, words of q +-1) the clamped range expresses", es.len() as u64, move |i| {
        Case::Derive { key: es[i as usize].clone(), all_routes: i % 8 == 0 }
    }));
    v
}

// ------------------------------------------------------------------ C04

/// signature by construction: A = a B + T[ta], R = r B + T[tr]
pub fn forge(a: &r::N, ta: usize, rr: &r::N, tr: usize, m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let t = r::torsion();
    let ae = r::base_mul(a).add(&t[ta]).encode();
    let re = r::base_mul(rr).add(&t[tr]).encode();
    let k = r::challenge(&re, &ae, m);
    let s = r::qadd(rr, &r::qmul(&k, a));
    let mut sig = re.to_vec();
    sig.extend_from_slice(&r::to_le57(&s));
    (ae.to_vec(), sig)
}
fn honest(t: u64, raw: bool, m: &Msg) -> (Vec<u8>, Vec<u8>) {
    let k = key(t, raw);
    (r::derive_public(&k).to_vec(), r::sign(&k, &m.bytes()).to_vec())
}
fn c04(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let m = Msg::Pat(40, 3);
    let (pk, sig) = honest(20, false, &m);
    {
        let (pk, sig, m) = (pk.clone(), sig.clone(), m.clone());
        let step = if th { 1 } else { 3 };
        v.push(Space::new("ver-sig-bytes", "every signature byte x values (thorough 256, quick every third)", 114 * (256 / step), move |i| {
            let per = 256 / step;
            let mut s = sig.clone();
            s[(i / per) as usize] = ((i % per) * step) as u8;
            Case::Verify { pk: pk.clone(), sig: s, msg: m.clone(), class: false }
        }));
    }
    {
        let (pk, sig, m) = (pk.clone(), sig.clone(), m.clone());
        v.push(Space::new("ver-pk-bytes", "every public key byte x every value", 57 * 256, move |i| {
            let mut p = pk.clone();
            p[(i / 256) as usize] = i as u8;
            Case::Verify { pk: p, sig: sig.clone(), msg: m.clone(), class: false }
        }));
    }
    let combos = if th { 24u64 } else { 4 };
    v.push(Space::new("ver-bit-flips", "every single-bit change of key, signature and message, several signers", combos * (456 + 912 + 320), move |i| {
        let c = i / (456 + 912 + 320);
        let b = i % (456 + 912 + 320);
        let m = Msg::Pat(40, 100 + c);
        let (mut pk, mut sig) = honest(21 + c, c % 2 == 1, &m);
        let mut mb = m.bytes();
        let b = b as usize;
        if b < 456 {
            pk[b / 8] ^= 1 << (b % 8)
        } else if b < 1368 {
            sig[(b - 456) / 8] ^= 1 << (b % 8)
        } else {
            mb[(b - 1368) / 8] ^= 1 << (b % 8)
        }
        Case::Verify { pk, sig, msg: Msg::Lit(mb), class: false }
    }));
    {
        let (pk, sig) = (pk.clone(), sig.clone());
        v.push(Space::new("ver-msg-edits", "truncations, extensions and byte changes of the message", 40 + 40 + 40 * 16, move |i| {
            let mut mb = Msg::Pat(40, 3).bytes();
            let i = i as usize;
            if i < 40 {
                mb.truncate(i)
            } else if i < 80 {
                mb.extend(vec![if i % 2 == 0 { 0 } else { 0x80 }; i - 39])
            } else {
                mb[(i - 80) / 16] ^= 1 + ((i - 80) % 16) as u8 * 15
            }
            Case::Verify { pk: pk.clone(), sig: sig.clone(), msg: Msg::Lit(mb), class: false }
        }));
    }
    let b = big_lens(if th { 26 } else { 23 });
    v.push(Space::new("ver-big-messages", "honest signature over a long message, verified over it and over it with its first, middle or last byte changed, cut by one byte and extended by one", b.len() as u64 * 6, move |i| {
        let n = b[(i / 6) as usize];
        let signed = Msg::Pat(n, 9);
        let (pk, sig) = honest(22, i / 6 % 2 == 1, &signed);
        let msg = match i % 6 {
            0 => signed,
            1 => Msg::PatX(n, 9, 0, 1),
            2 => Msg::PatX(n, 9, n / 2, 0x10),
            3 => Msg::PatX(n, 9, n - 1, 0x80),
            4 => Msg::Pat(n - 1, 9),
            _ => Msg::Pat(n + 1, 9),
        };
        Case::Verify { pk, sig, msg, class: false }
    }));
    let n = if th { 24u64 } else { 10 };
    v.push(Space::new("ver-cross-matrix", "all (verifier, signer, verified message, signed message)", n * n * n, move |i| {
        let (a, b, c) = (i / (n * n), i / n % n, i % n);
        let sm = Msg::Pat(b as usize, b);
        let (_, sig) = honest(200 + a, a % 2 == 1, &sm);
        let (pk, _) = (r::derive_public(&key(200 + c, c % 2 == 1)).to_vec(), ());
        // half the cases verify the signed message, half another one
        let vm = if (a + b + c) % 2 == 0 { sm } else { Msg::Pat((b + 1) as usize, b) };
        Case::Verify { pk, sig, msg: vm, class: false }
    }));
    // signatures no honest signer makes, valid and invalid by construction
    let es = edge_scalars(th);
    let ne = es.len() as u64;
    {
        let es = es.clone();
        v.push(Space::new("ver-edge-key-scalar", "A = aB for edge a (0, +-small, +-2^i, ..), valid signature and S+1", ne * 2, move |i| {
            let a = &es[(i / 2) as usize];
            let m = vec![i as u8];
            let (pk, mut sig) = forge(a, 0, &pt_scalar(60), 0, &m);
            if i % 2 == 1 {
                bump(&mut sig)
            }
            Case::Verify { pk, sig, msg: Msg::Lit(m), class: false }
        }));
    }
    {
        let es = es.clone();
        v.push(Space::new("ver-edge-nonce-scalar", "R = rB for edge r, valid signature and S+1", ne * 2, move |i| {
            let m = vec![i as u8];
            let (pk, mut sig) = forge(&pt_scalar(61), 0, &es[(i / 2) as usize], 0, &m);
            if i % 2 == 1 {
                bump(&mut sig)
            }
            Case::Verify { pk, sig, msg: Msg::Lit(m), class: false }
        }));
    }
    {
        let es = es.clone();
        v.push(Space::new("ver-edge-response", "A = identity, S every edge scalar, R = SB and R = -SB", ne * 2, move |i| {
            let s = &es[(i / 2) as usize];
            let m = vec![1, i as u8];
            let rr = if i % 2 == 0 { *s } else { r::qsub(&r::ZERO, s) };
            let (pk, _) = forge(&r::ZERO, 0, &rr, 0, &m);
            let mut sig = r::base_mul(&rr).encode().to_vec();
            sig.extend_from_slice(&r::to_le57(s));
            Case::Verify { pk, sig, msg: Msg::Lit(m), class: false }
        }));
    }
    // degenerate and ordinary values in every combination
    {
        let t = r::torsion();
        let mut pts: Vec<Vec<u8>> = t.iter().map(|p| p.encode().to_vec()).collect();
        for n in [r::ONE, r::small(2), r::small(4), r::sbb(&r::Q, &r::ONE).0, pt_scalar(63)] {
            pts.push(r::base_mul(&n).encode().to_vec());
        }
        pts.push(vec![0; 57]);
        pts.push(vec![255; 57]);
        let mut ss: Vec<Vec<u8>> = vec![];
        for n in [r::ZERO, r::ONE, r::small(2), r::small(4), r::sbb(&r::Q, &r::ONE).0, r::q_half(), r::q_quarter(), pt_scalar(63), pt_scalar(64), r::Q] {
            ss.push(r::to_le57(&n).to_vec());
        }
        ss.push(vec![255; 57]);
        let (np, ns) = (pts.len() as u64, ss.len() as u64);
        v.push(Space::new("ver-degenerate-grid", "key, R in {small-order points, small multiples of the base point, ordinary, undecodable} x S in {0, 1, 2, 4, q-1, 1/2, 1/4, ordinary, q, ff..} x 3 messages", np * np * ns * 3, move |i| {
            let (p, rr, s, m) = (i % np, i / np % np, i / (np * np) % ns, i / (np * np * ns));
            let mut sig = pts[rr as usize].clone();
            sig.extend_from_slice(&ss[s as usize]);
            Case::Verify { pk: pts[p as usize].clone(), sig, msg: Msg::Pat(m as usize * 20, 8), class: false }
        }));
    }
    v.push(Space::new("ver-torsion", "4-torsion components on A and R, edge scalars, valid and S+1", 4 * 4 * 8 * 8 * 2, |i| {
        let (ta, tr) = ((i / 256 % 4) as usize, (i / 1024) as usize);
        let (x, y, b) = (i / 32 % 8, i / 4 % 8, i % 2);
        let sc = |t: u64| match t {
            0 => r::ZERO,
            1 => r::ONE,
            2 => r::sbb(&r::Q, &r::ONE).0,
            3 => r::q_half(),
            4 => r::small(4),
            t => pt_scalar(70 + t),
        };
        let m = vec![i as u8, (i >> 8) as u8];
        let (pk, mut sig) = forge(&sc(x), ta, &sc(y), tr, &m);
        if b == 1 {
            bump(&mut sig)
        }
        Case::Verify { pk, sig, msg: Msg::Lit(m), class: false }
    }));
    v.push(Space::new("ver-shifted-equation", "R off by jB, S off by j, key off by jB for small j: only balanced ones verify", 9 * 9 * 9, |i| {
        let (x, y, z) = (i / 81, i / 9 % 9, i % 9);
        let d = |t: u64| if t < 4 { r::qsub(&r::ZERO, &r::small(4 - t)) } else { r::small(t - 4) };
        let m = b"shift".to_vec();
        let (a, rr) = (pt_scalar(81), pt_scalar(82));
        let ae = r::base_mul(&r::qadd(&a, &d(x))).encode();
        let re = r::base_mul(&r::qadd(&rr, &d(y))).encode();
        let k = r::challenge(&re, &ae, &m);
        let s = r::qadd(&r::qadd(&rr, &d(z)), &r::qmul(&k, &a));
        let mut sig = re.to_vec();
        sig.extend_from_slice(&r::to_le57(&s));
        Case::Verify { pk: ae.to_vec(), sig, msg: Msg::Lit(m), class: false }
    }));
    v.push(Space::new("ver-negated", "key, R and S replaced by their negatives in all combinations", 8 * 8, |i| {
        let c = i / 8;
        let m = Msg::Pat(9, c);
        let (mut pk, mut sig) = honest(90 + c, c % 2 == 0, &m);
        if i & 1 == 1 {
            pk[56] ^= 0x80
        }
        if i & 2 == 2 {
            sig[56] ^= 0x80
        }
        if i & 4 == 4 {
            let s = r::qsub(&r::ZERO, &n_of_bytes(&sig[57..113]));
            sig[57..].copy_from_slice(&r::to_le57(&s));
        }
        Case::Verify { pk, sig, msg: m, class: false }
    }));
    for raw in [false, true] {
        let st = structured(&key(96, raw), th);
        let pk = r::derive_public(&key(96, raw)).to_vec();
        v.push(Space::new(
            &format!("ver-structured-messages-{}", if raw { "raw" } else { "seed" }),
            "honest signature over a structured message, verified over it and over one of eleven edits of it (thorough: each)",
            st.len() as u64 * if th { 12 } else { 2 },
            move |i| {
                let (m, how) = if th { (i / 12, i % 12) } else { (i / 2, if i % 2 == 0 { 0 } else { 1 + i / 2 % 11 }) };
                let m = &st[m as usize];
                let sig = r::sign(&key(96, raw), m).to_vec();
                Case::Verify { pk: pk.clone(), sig, msg: Msg::Lit(near(m, how)), class: false }
            },
        ));
    }
    v.push(Space::new("ver-msg-lengths", "honest signature over every message length, verified over it and over one byte less", if th { 70_000 } else { 34_000 }, |i| {
        let m = Msg::Pat((i / 2) as usize + 1, 5);
        let (pk, sig) = honest(95, i % 4 < 2, &m);
        let vm = if i % 2 == 0 { m } else { Msg::Lit(m.bytes()[..(i / 2) as usize].to_vec()) };
        Case::Verify { pk, sig, msg: vm, class: false }
    }));
    v
}
fn bump(sig: &mut [u8]) {
    let s = r::qadd(&n_of_bytes(&sig[57..113]), &r::ONE);
    sig[57..].copy_from_slice(&r::to_le57(&s));
}

// ------------------------------------------------------------------ C05

fn add_kq(s: &r::N, k: u64) -> Option<[u8; 57]> {
    // s + k q over 57 bytes
    let mut acc = [0u64; 8];
    acc[..7].copy_from_slice(s);
    let mut c = 0u128;
    for i in 0..8 {
        let q = if i < 7 { r::Q[i] } else { 0 };
        c += acc[i] as u128 + q as u128 * k as u128;
        acc[i] = c as u64;
        c >>= 64;
    }
    if acc[7] > 255 || c != 0 {
        return None;
    }
    let mut o = [0u8; 57];
    for i in 0..57 {
        o[i] = (acc[i / 8] >> (8 * (i % 8))) as u8;
    }
    Some(o)
}
/// y + p as 57 bytes with sign bit, if y + p < 2^448
fn plus_p(y: &r::N, sign: u8) -> Option<Vec<u8>> {
    let (n, c) = r::adc(y, &r::P);
    if c != 0 {
        return None;
    }
    let mut e = r::to_le57(&n).to_vec();
    e[56] = sign << 7;
    Some(e)
}
fn c05(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let signers = if th { 8 } else { 2u64 };
    v.push(Space::new("mal-s-plus-kq", "S + kq for every k that fits 57 bytes", 1023 * signers, move |i| {
        let m = Msg::Pat(11, i / 1023);
        let (pk, mut sig) = honest(110 + i / 1023, i / 1023 % 2 == 1, &m);
        let s = n_of_bytes(&sig[57..113]);
        match add_kq(&s, i % 1023 + 1) {
            Some(b) => sig[57..].copy_from_slice(&b),
            None => sig[113] = 0xff,
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    let es = edge_scalars(false);
    v.push(Space::new("mal-s-edge-plus-kq", "S = s + kq, R = sB, A = identity: edge s, k = 0, 1, 2, 3, 5, 64, 1022", es.len() as u64 * 7, move |i| {
        let s = es[(i / 7) as usize];
        let k = [0u64, 1, 2, 3, 5, 64, 1022][(i % 7) as usize];
        let mut sig = r::base_mul(&s).encode().to_vec();
        sig.extend_from_slice(&add_kq(&s, k).unwrap_or([0xff; 57]));
        Case::Verify { pk: r::IDENT.encode().to_vec(), sig, msg: Msg::Lit(vec![2]), class: true }
    }));
    v.push(Space::new("mal-s-last-byte", "last byte of S every value", 255 * 2, |i| {
        let m = Msg::Pat(12, 0);
        let (pk, mut sig) = honest(120, i % 2 == 1, &m);
        sig[113] = (i / 2) as u8 + 1;
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("mal-unused-bits", "the seven unused bits of byte 56 of the key and of R, every value", 2 * 256 * 2, |i| {
        let m = Msg::Pat(13, 0);
        let (mut pk, mut sig) = honest(121, i % 2 == 1, &m);
        let x = (i / 4) as u8;
        if i & 2 == 2 {
            pk[56] = x
        } else {
            sig[56] = x
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    // encodings of the identity and its torsion friends as key and as R, signature valid for the
    // value they would denote
    v.push(Space::new("mal-low-order-aliases", "every alias of the 4-torsion points (sign bit, y+p) as A and as R", 3 * 2 * 2 * 3 * 2 * 2, |i| {
        let enc = |t: u64| -> Vec<u8> {
            // t: y in {1, p-1, 0} x sign x canonical/alias
            let y = [r::ONE, r::sbb(&r::P, &r::ONE).0, r::ZERO][(t / 4) as usize];
            let sign = (t % 2) as u8;
            if t & 2 == 2 {
                if let Some(e) = plus_p(&y, sign) {
                    return e;
                }
            }
            let mut e = r::to_le57(&y).to_vec();
            e[56] = sign << 7;
            e
        };
        let mut sig = enc(i % 12);
        sig.extend_from_slice(&[0u8; 57]);
        Case::Verify { pk: enc(i / 12), sig, msg: Msg::Lit(vec![3]), class: true }
    }));
    v.push(Space::new("mal-r-alias", "R = identity under every alias, S = k a under the aliased challenge", 12 * 8, |i| {
        let t = i % 12;
        let y = [r::ONE, r::sbb(&r::P, &r::ONE).0, r::ZERO][(t / 4) as usize];
        let mut re = r::to_le57(&y).to_vec();
        re[56] = ((t % 2) as u8) << 7;
        if t & 2 == 2 {
            if let Some(e) = plus_p(&y, (t % 2) as u8) {
                re = e
            }
        }
        let a = pt_scalar(130 + i / 12);
        let pk = r::base_mul(&a).encode();
        let m = vec![i as u8];
        let k = r::challenge(&re, &pk, &m);
        let mut sig = re;
        sig.extend_from_slice(&r::to_le57(&r::qmul(&k, &a)));
        Case::Verify { pk: pk.to_vec(), sig, msg: Msg::Lit(m), class: true }
    }));
    v.push(Space::new("mal-key-torsion-alias", "the signer's key replaced by A + T for each 4-torsion T, R by R + T", 4 * 4 * 8, |i| {
        let c = i / 16;
        let m = Msg::Pat(14, c);
        let (pk, sig) = honest(140 + c, c % 2 == 1, &m);
        let t = r::torsion();
        let a = r::decode(&pk).unwrap().add(&t[(i % 4) as usize]).encode();
        let re = r::decode(&sig[..57]).unwrap().add(&t[(i / 4 % 4) as usize]).encode();
        let mut s = re.to_vec();
        s.extend_from_slice(&sig[57..]);
        Case::Verify { pk: a.to_vec(), sig: s, msg: m, class: true }
    }));
    v.push(Space::new("mal-y-not-below-p", "y in [p, 2^448) as key and as R, with any sign: p + small, p + 2^i, 2^448 - small", (600 + 2 * 224) * 2 * 2, |i| {
        let j = i / 4;
        let y = if j < 300 {
            r::small(j)
        } else if j < 600 {
            r::sbb(&pow2(224), &r::small(j - 300)).0
        } else if j < 824 {
            pow2((j - 600) as usize)
        } else {
            r::sbb(&pow2((j - 824) as usize), &r::ONE).0
        };
        let e = plus_p(&y, (i % 2) as u8).expect("fits");
        let m = Msg::Pat(15, 0);
        let (mut pk, mut sig) = honest(150, false, &m);
        if i & 2 == 2 {
            pk = e
        } else {
            sig[..57].copy_from_slice(&e)
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(residues("mal-single-limb-residue", true));
    v
}
fn residue_list() -> Vec<Vec<u8>> {
    include_str!("../residue.txt")
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| unhex(l.split(' ').last().unwrap()))
        .collect()
}
fn residues(name: &str, class: bool) -> Space {
    let res = residue_list();
    Space::new(name, "off-curve y whose curve-equation residue is confined to one limb, each limb, both signs, as A and as R", res.len() as u64 * 4, move |i| {
        let mut e = res[(i / 4) as usize].clone();
        if i & 1 == 1 {
            e[56] ^= 0x80
        }
        let m = Msg::Pat(16, 0);
        let (mut pk, mut sig) = honest(151, true, &m);
        if i & 2 == 2 {
            pk = e
        } else {
            sig[..57].copy_from_slice(&e)
        }
        Case::Verify { pk, sig, msg: m, class }
    })
}

// ------------------------------------------------------------------ C06

fn c06(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let (pl, sl) = (130u64, 260u64);
    v.push(Space::new("tot-length-grid", "every (key length < 130, signature length < 260), prefixes and zero-extensions of honest data", pl * sl, move |i| {
        let m = Msg::Pat(5, 0);
        let (mut pk, mut sig) = honest(160, false, &m);
        pk.resize((i / sl) as usize, 0);
        sig.resize((i % sl) as usize, 0);
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    for fill in [0u8, 0xff, 0x55] {
        v.push(Space::new(&format!("tot-fill-{:02x}", fill), "constant keys and signatures of every length < 130 / < 260 (step), and honest counterpart", 130 * 65 + 130 + 260, move |i| {
            let m = Msg::Pat(5, 0);
            let (mut pk, mut sig) = honest(161, true, &m);
            if i < 130 * 65 {
                pk = vec![fill; (i / 65) as usize];
                sig = vec![fill; (i % 65) as usize * 4];
            } else if i < 130 * 65 + 130 {
                pk = vec![fill; (i - 130 * 65) as usize];
            } else {
                sig = vec![fill; (i - 130 * 65 - 130) as usize];
            }
            Case::Verify { pk, sig, msg: m, class: true }
        }));
    }
    v.push(Space::new("tot-sig-long", "signature lengths up to 2000 with an honest key", if th { 5000 } else { 2000 }, |i| {
        let m = Msg::Pat(5, 0);
        let (pk, mut sig) = honest(162, false, &m);
        sig.resize(i as usize, 0xa5);
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-huge", "key, signature or message of 2^20 to 2^24 (thorough 2^26) bytes: honest data followed by zeros, copies of itself, or one byte", 9 * if th { 7 } else { 5 }, |i| {
        let n = 1usize << (20 + i / 9);
        let m = Msg::Pat(if i % 3 == 2 { n + (i / 3 % 3) as usize } else { 5 }, 3);
        let (mut pk, mut sig) = honest(171, i % 2 == 0, &m);
        let grow = |b: &mut Vec<u8>| match i / 3 % 3 {
            0 => b.resize(n, 0),
            1 => *b = b.iter().copied().cycle().take(n + 1).collect(),
            _ => b.resize(n - 1, 0xff),
        };
        match i % 3 {
            0 => grow(&mut pk),
            1 => grow(&mut sig),
            _ => {}
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-fault-messages", "each kind of fault x every message length below 300 and around powers of two", 10 * 330, |i| {
        let n = i / 10;
        let m = Msg::Pat(if n < 300 { n as usize } else { (1usize << (9 + (n - 300) / 3)) + (n % 3) as usize - 1 }, 3);
        let (mut pk, mut sig) = honest(167 + i % 2, i % 4 < 2, &m);
        match i % 10 {
            0 => pk = vec![],
            1 => pk = vec![0; 57],
            2 => pk = [&[2u8][..], &[0; 56]].concat(),
            3 => pk.truncate(56),
            4 => sig = vec![],
            5 => sig.truncate(113),
            6 => sig = vec![0; 114],
            7 => sig[..57].copy_from_slice(&[&[2u8][..], &[0; 56]].concat()),
            8 => sig[113] = 1,
            _ => sig[57] ^= 1,
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-sig-tails", "rejected signatures (wrong message, altered R or S, zero, another key's) with a tail: every length up to 600 and around powers of two, three tails", 15 * 640, |i| {
        let m = Msg::Pat(5, 0);
        let (pk, mut sig) = honest(169, i % 2 == 0, &m);
        let n = i / 15;
        let n = if n < 600 { n as usize } else { (1usize << (10 + (n - 600) / 4)) + [0, 1, 114, 171][(n % 4) as usize] - 114 };
        let mut msg = m.clone();
        match i % 5 {
            0 => msg = Msg::Pat(6, 0),
            1 => sig[57] ^= 1,
            2 => sig[3] ^= 1,
            3 => sig = vec![0; 114],
            _ => sig = honest(170, false, &m).1,
        }
        match i / 5 % 3 {
            0 => sig.resize(114 + n, 0),
            1 => sig.extend(std::iter::repeat(&pk[..]).take(n / 57 + 1).flatten().take(n)),
            _ => sig.extend(stream(n as u64, n)),
        }
        Case::Verify { pk, sig, msg, class: true }
    }));
    let step: u64 = if th { 1 } else { 2 };
    v.push(Space::new("tot-pk-bytes", "every key byte x values, error class checked", 57 * 256 / step, move |i| {
        let per = 256 / step;
        let m = Msg::Pat(5, 0);
        let (mut pk, sig) = honest(163, false, &m);
        pk[(i / per) as usize] = ((i % per) * step) as u8 ^ 5;
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-sig-bytes", "every signature byte x values, error class checked", 114 * 256 / step, move |i| {
        let per = 256 / step;
        let m = Msg::Pat(5, 0);
        let (pk, mut sig) = honest(164, true, &m);
        sig[(i / per) as usize] = ((i % per) * step) as u8 ^ 6;
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-zero-rule", "the all-zero key and the all-zero signature and their one-bit neighbours", (456 + 1) * 2 + (912 + 1) * 2, |i| {
        let m = Msg::Pat(5, 0);
        let (mut pk, mut sig) = honest(165, true, &m);
        let mut z = |n: u64, len: usize| {
            let mut b = vec![0u8; len];
            if n > 0 {
                b[(n - 1) as usize / 8] = 1 << ((n - 1) % 8);
            }
            b
        };
        if i < 914 {
            pk = z(i / 2, 57);
            if i % 2 == 1 {
                sig = vec![0; 114];
            }
        } else {
            sig = z((i - 914) / 2, 114);
            if i % 2 == 1 {
                pk = vec![0; 57];
            }
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v.push(Space::new("tot-bad-pairs", "undecodable key x undecodable R x oversized S x length faults, all combinations", 6 * 6 * 4 * 3, |i| {
        let m = Msg::Pat((i % 3) as usize, 0);
        let (mut pk, mut sig) = honest(166, false, &m);
        let bad = |n: u64| -> Option<Vec<u8>> {
            match n {
                0 => None,
                1 => Some(vec![0xff; 57]),
                2 => Some(plus_p(&r::small(3), 0).unwrap()),
                3 => Some({
                    let mut e = vec![0u8; 57];
                    e[0] = 1;
                    e[56] = 0x80;
                    e
                }),
                4 => Some({
                    let mut e = vec![0u8; 57];
                    e[0] = 2;
                    e
                }),
                _ => Some({
                    let mut e = vec![0u8; 57];
                    e[56] = 1;
                    e
                }),
            }
        };
        if let Some(e) = bad(i / 72) {
            pk = e
        }
        if let Some(e) = bad(i / 12 % 6) {
            sig[..57].copy_from_slice(&e)
        }
        match i / 3 % 4 {
            1 => sig[113] = 0x80,
            2 => sig.truncate(100),
            3 => pk.push(0),
            _ => {}
        }
        Case::Verify { pk, sig, msg: m, class: true }
    }));
    v
}

// ------------------------------------------------------------------ C07

fn enc_case(e: Vec<u8>, slot: u64) -> Case {
    #[cfg(feature = "int_point")]
    if slot == 2 {
        return Case::Codec { enc: e };
    }
    let m = Msg::Lit(vec![7]);
    // a fixed honest partner, computed once
    static H: std::sync::OnceLock<(Vec<u8>, Vec<u8>)> = std::sync::OnceLock::new();
    let (mut pk, mut sig) = H.get_or_init(|| honest(170, false, &Msg::Lit(vec![7]))).clone();
    if slot == 1 {
        sig[..57].copy_from_slice(&e)
    } else {
        pk = e
    }
    Case::Verify { pk, sig, msg: m, class: true }
}
fn c07(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let hook = cfg!(feature = "int_point");
    // slot 0: as key, 1: as R, 2: the decoder itself
    let slots = move |i: u64| if hook { if i % 8 == 0 { 0 } else if i % 8 == 1 { 1 } else { 2 } } else { i % 2 };
    let mk = move |y: r::N, sign: u64| -> Vec<u8> {
        let mut e = r::to_le57(&y).to_vec();
        e[56] = (sign as u8) << 7;
        e
    };
    v.push(Space::new("enc-small-y", "y = 0, 1, 2, .. with both signs", if th { 200_000 } else { 16_000 }, move |i| enc_case(mk(r::small(i / 2), i % 2), slots(i / 2))));
    v.push(Space::new("enc-near-p", "y = p - 1 - j and p + j", if th { 60_000 } else { 12_000 }, move |i| {
        let j = i / 4;
        let y = if i & 2 == 0 { r::sbb(&r::P, &r::small(j + 1)).0 } else { r::adc(&r::P, &r::small(j)).0 };
        enc_case(mk(y, i % 2), slots(j))
    }));
    v.push(Space::new("enc-limb-patterns", "y with every 28-bit limb 0 or 2^28-1 (thorough: both signs)", 1 << if th { 17 } else { 15 }, move |i| {
        let (i, sign) = if th { (i / 2, i % 2) } else { (i * 2 + (i & 1), i / 3 % 2) };
        let mut n = r::ZERO;
        for k in 0..16 {
            if i >> k & 1 == 1 {
                n = r::adc(&n, &n_shl(0xfff_ffff, 28 * k)).0;
            }
        }
        enc_case(mk(n, sign), slots(i))
    }));
    v.push(Space::new("enc-limb-of-p-off", "y sharing limbs with p from the top, one limb replaced, the rest 0 or all ones", 16 * 2 * 64 * 2, move |i| {
        let k = (i / 256) as usize;
        let (low, x, sign) = (i / 128 % 2, i / 2 % 64, i % 2);
        let mut n = r::P;
        for j in 0..k {
            n = r::sbb(&n, &mask_limb(&n, j)).0;
            if low == 1 {
                n = r::adc(&n, &n_shl(0xfff_ffff, 28 * j)).0;
            }
        }
        let val = match x {
            0..=15 => x,
            16..=31 => 0xfff_ffff - (x - 16),
            32..=59 => 1 << (x - 32),
            _ => 0xfff_fff0 << (x - 60) & 0xfff_ffff,
        };
        n = r::adc(&r::sbb(&n, &mask_limb(&n, k)).0, &n_shl(val, 28 * k)).0;
        enc_case(mk(n, sign), slots(i / 2))
    }));
    v.push(Space::new("enc-two-powers", "y = 2^i + 2^j and p - that", 448 * 449 / 2 * 2 / if th { 1 } else { 16 }, move |i| {
        let i = i * if th { 1 } else { 16 } + if th { 0 } else { i % 16 };
        let (mut a, mut left) = (0u64, i / 2 % (448 * 449 / 2));
        while left >= 448 - a {
            left -= 448 - a;
            a += 1;
        }
        let b = a + left;
        let (n, c) = r::adc(&pow2(a as usize), &pow2(b as usize));
        let n = if c != 0 { r::ZERO } else { n };
        let n = if i % 2 == 1 && r::lt(&n, &r::P) { r::sbb(&r::P, &n).0 } else { n };
        enc_case(mk(n, i / 2 % 2), slots(i))
    }));
    v.push(Space::new("enc-multiples", "encodings of jB, their negatives and their sums with 4-torsion", if th { 40_000 } else { 6_000 }, move |i| {
        let j = i / 8;
        let mut p = r::base_mul(&r::small(j)).add(&r::torsion()[(i % 4) as usize]);
        if i & 4 == 4 {
            p = p.neg()
        }
        enc_case(p.encode().to_vec(), slots(j))
    }));
    v.push(Space::new("enc-edge-multiples", "encodings of sB for edge s, with 4-torsion, both as given and with the sign flipped", 4 * 2 * edge_scalars(th).len() as u64, {
        let es = edge_scalars(th);
        move |i| {
            let mut e = r::base_mul(&es[(i / 8) as usize]).add(&r::torsion()[(i % 4) as usize]).encode().to_vec();
            if i & 4 == 4 {
                e[56] ^= 0x80
            }
            enc_case(e, slots(i / 8))
        }
    }));
    v.push(Space::new("enc-last-byte", "byte 56 every value on valid y, identity y and invalid y", 256 * 4, move |i| {
        let y = match i / 256 {
            0 => r::base_mul(&r::small(5)).affine().1,
            1 => r::ONE,
            2 => r::sbb(&r::P, &r::ONE).0,
            _ => r::small(2),
        };
        let mut e = r::to_le57(&y).to_vec();
        e[56] = i as u8;
        enc_case(e, slots(i))
    }));
    v.push(residues("enc-single-limb-residue", true));
    #[cfg(feature = "int_point")]
    {
        let res = residue_list();
        v.push(Space::new("enc-residue-decoder", "the same bytes given to the decoder itself", res.len() as u64 * 2, move |i| {
            let mut e = res[(i / 2) as usize].clone();
            if i % 2 == 1 {
                e[56] ^= 0x80
            }
            Case::Codec { enc: e }
        }));
        v.push(Space::new("enc-lengths", "decoder on every length 0..200 but 57", 200, |i| {
            let mut e = r::base_mul(&r::small(9)).encode().to_vec();
            e.resize(i as usize, 0);
            Case::Codec { enc: e }
        }));
    }
    v
}
fn mask_limb(n: &r::N, k: usize) -> r::N {
    let bit = 28 * k;
    let (w, s) = (bit / 64, bit % 64);
    let mut v = n[w] >> s;
    if s > 36 && w + 1 < 7 {
        v |= n[w + 1] << (64 - s);
    }
    n_shl(v & 0xfff_ffff, bit)
}

// ------------------------------------------------------------------ C08

#[cfg(feature = "int_field")]
fn c08(th: bool) -> Vec<Space> {
    use crate::field::*;
    let mut v = api_field(th);
    const M: u32 = 0xfff_ffff;
    const R: u32 = M + 16; // largest limb a weak reduction leaves
    const W: u32 = 2 * R; // sum of two such
    fn tern(mut i: u64, al: [u32; 3]) -> L {
        let mut o = [0; 16];
        for x in o.iter_mut() {
            *x = al[(i % 3) as usize];
            i /= 3;
        }
        o
    }
    fn bin(i: u64, lo: u32, hi: u32) -> L {
        std::array::from_fn(|k| if i >> k & 1 == 1 { hi } else { lo })
    }
    let t16: u64 = 3u64.pow(16);
    // quick: the first 13 limbs ternary, the top three tied to their neighbours by the index
    let tsize = if th { t16 } else { 3u64.pow(13) };
    let tmap = move |i: u64, al: [u32; 3]| -> L {
        if th {
            tern(i, al)
        } else {
            // spread the 13 free digits over 16 limbs, a different three limbs being tied per class
            let mut o = tern(i, al);
            let c = (i % 13) as usize;
            o.rotate_left(c);
            let t = o[(c + 3) % 16];
            for k in 0..16 {
                if o[k] == al[0] && (i / 13 + k as u64) % 11 == 0 {
                    o[k] = t
                }
            }
            o
        }
    };
    let dense: Vec<L> = vec![
        [0; 16],
        [M; 16],
        [R; 16],
        limbs(&r::sbb(&r::P, &r::ONE).0),
        {
            let mut p = [M; 16];
            p[8] = M - 1;
            p
        },
        bin(0x5555, 0, R),
        bin(0xaaaa, 0, R),
        bin(0x00ff, 0, R),
        bin(0xff00, 0, R),
        bin(0x0180, 0, R),
        limbs(&n_of_bytes(&stream(601, 56))),
        limbs(&n_of_bytes(&stream(602, 56))),
        [1; 16],
        [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0],
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, R],
    ];
    let red = [0, M, R];
    let raw = [0, R, W];
    for (op, al) in [
        (FOp::Serialize, red),
        (FOp::LowBit, red),
        (FOp::Strong, red),
        (FOp::Square, raw),
        (FOp::Square, red),
        (FOp::MulD, red),
        (FOp::MulNiels, red),
        (FOp::MulW, red),
        (FOp::CondNeg, red),
    ] {
        v.push(Space::new(
            &format!("fld-{:?}-limbs-{:x}", op, al[2]),
            "limbs from a three-letter alphabet (thorough: all 3^16)",
            tsize,
            move |i| Case::Field { op, a: tmap(i, al), b: [0; 16] },
        ));
    }
    v.push(Space::new("fld-weak", "weak reduction keeps the value, limbs up to 5*2^28", tsize, move |i| Case::Field { op: FOp::Weak, a: tmap(i, [0, W, 5 * M]), b: [0; 16] }));
    for (op, al, bl) in [
        (FOp::Add, red, 0u32),
        (FOp::Sub, red, 0),
        (FOp::Sub4, raw, 0),
        (FOp::Equal, red, 0),
        (FOp::Mul, raw, 1),
        (FOp::Select, red, 0),
    ] {
        let d = dense.clone();
        let nd = if op == FOp::Select { 2 } else { d.len() as u64 };
        let per = if th { 3u64.pow(14) } else { 3u64.pow(11) };
        v.push(Space::new(
            &format!("fld-{:?}-limbs-dense", op),
            "left operand limbs from a three-letter alphabet, right operand from 16 dense patterns",
            per * nd,
            move |i| {
                let mut b = d[(i / per) as usize];
                if bl == 1 {
                    b = std::array::from_fn(|k| b[k] * 2)
                }
                // rotate so that every limb is free for some right operand
                let mut a = tern(i % per * if th { 9 } else { 243 } + i / per * 7, al);
                a.rotate_left((i / per) as usize);
                Case::Field { op, a, b }
            },
        ));
        let d = dense.clone();
        v.push(Space::new(
            &format!("fld-{:?}-dense-limbs", op),
            "left operand dense, right operand every subset of limbs full",
            65536 * nd,
            move |i| Case::Field { op, a: d[(i / 65536) as usize], b: bin(i % 65536, 0, R) },
        ));
    }
    {
        let d = dense.clone();
        v.push(Space::new("fld-Sub3", "subtrahend an unreduced sum, every subset of limbs full", 65536 * 16, move |i| Case::Field { op: FOp::Sub3, a: d[(i / 65536) as usize], b: bin(i % 65536, 0, W) }));
    }
    {
        let al = [0u32, 1, M, R, W];
        v.push(Space::new("fld-Mul-two-limbs", "two nonzero limbs on each side, values 1, 2^28-1, 2^28+15, 2^29+30", 120 * 120 * 4 * 4 * 4 * if th { 4 } else { 1 }, move |i| {
            let pair = |mut n: u64| {
                for a in 0..16u64 {
                    if n < 15 - a {
                        return (a as usize, (a + 1 + n) as usize);
                    }
                    n -= 15 - a;
                }
                (14, 15)
            };
            let (p, q) = (pair(i % 120), pair(i / 120 % 120));
            let j = i / 14400;
            let (mut a, mut b) = ([0; 16], [0; 16]);
            a[p.0] = al[1 + (j % 4) as usize];
            a[p.1] = al[1 + (j / 4 % 4) as usize];
            b[q.0] = al[1 + (j / 16 % 4) as usize];
            b[q.1] = al[1 + if th { j / 64 % 4 } else { (j + j / 16) % 4 } as usize];
            Case::Field { op: FOp::Mul, a, b }
        }));
        v.push(Space::new("fld-Mul-bin-bin", "every subset of limbs full, against its rotations and complements", 65536 * 32, move |i| {
            let a = i % 65536;
            let j = i / 65536;
            let rot = ((a << (j % 16)) | (a >> (16 - j % 16))) & 0xffff;
            let b = if j >= 16 { rot ^ 0xffff } else { rot };
            Case::Field { op: FOp::Mul, a: bin(a, 0, W), b: bin(b, if j % 2 == 0 { 0 } else { 1 }, W) }
        }));
    }
    // equality: same value in another representation, and values one unit apart in one limb
    v.push(Space::new("fld-Equal-representations", "x against x with one carry undone at limb k", (1 << 16) * 16, |i| {
        let a = bin(i >> 4, 1, M);
        let k = (i % 16) as usize;
        let mut b = a;
        // 2^28 at limb k == 1 at limb k+1; at limb 15 it is 1 at limbs 0 and 8
        if a[k] <= 15 {
            b[k] += 1 << 28;
            if k < 15 {
                b[k + 1] -= 1
            } else {
                b[0] -= 1;
                b[8] -= 1
            }
        } else {
            b[k] -= 1
        }
        Case::Field { op: FOp::Equal, a, b }
    }));
    v.push(Space::new("fld-Equal-one-limb", "values differing by 2^j in one limb only, every bit, several bases", 448 * 16 * 2, {
        let d = dense.clone();
        move |i| {
            let base = d[(i / 2 % 16) as usize];
            let bit = (i / 32) as usize;
            let mut b = base;
            if i % 2 == 0 {
                b[bit / 28] ^= 1 << (bit % 28);
            } else {
                // by value: b = base + 2^bit mod p
                b = limbs(&r::fadd(&value(&base), &pow2(bit)));
            }
            Case::Field { op: FOp::Equal, a: base, b }
        }
    }));
    v.push(Space::new("fld-near-p", "values p - j and p + j, 2p - j: canonical bytes, parity, equality, reduction", 4096 * 4 * 3, |i| {
        let op = [FOp::Serialize, FOp::LowBit, FOp::Strong, FOp::Equal][(i / 3 % 4) as usize];
        let j = i / 12;
        let mut a = limbs_of_p();
        match i % 3 {
            0 => {
                // p + j
                a[0] = (a[0] as u64 + j % 16) as u32;
                a[1 + (j / 16 % 15) as usize] += (j / 240) as u32 % 16;
            }
            1 => {
                let x = limbs(&r::sbb(&r::P, &r::small(j + 1)).0);
                a = x;
            }
            _ => {
                // limbs one short in a chain
                let k = (j % 16) as usize;
                a[k] -= 1 + (j / 16) as u32;
            }
        }
        Case::Field { op, a, b: [0; 16] }
    }));
    v.push(Space::new("fld-Deser", "canonical-form decision: limbs 0, one, all ones over 16 limbs", if th { t16 } else { 3u64.pow(14) }, move |i| {
        let i = if th { i } else { i * 9 + i % 9 };
        Case::Field { op: FOp::Deser, a: tern(i, [0, 1, M]), b: [0; 16] }
    }));
    v.push(Space::new("fld-Deser-near-p", "limbs of p with up to two of them replaced", 16 * 16 * 16 * 16, |i| {
        let mut a = limbs_of_p();
        let al = [0u32, 1, 2, 3, 0xff, 0x100, 0x101, 0xffff, 0x7ff_ffff, 0x800_0000, M - 0xff, M - 0x100, M - 2, M - 1, M, 0xff_ffff];
        a[(i % 16) as usize] = al[(i / 16 % 16) as usize];
        a[(i / 256 % 16) as usize] = al[(i / 4096) as usize];
        Case::Field { op: FOp::Deser, a, b: [0; 16] }
    }));
    v.push(Space::new("fld-ZeroMask", "all 16-bit words, all 2^i +- 2^j", 65536 * 2 + 1024 * 2, |i| {
        let x = if i < 65536 {
            i as u32
        } else if i < 131072 {
            (i as u32) << 16
        } else {
            let j = i - 131072;
            let (a, b) = (1u32 << (j / 64 % 32), 1u32 << (j / 2 % 32));
            if j % 2 == 0 { a.wrapping_add(b) } else { a.wrapping_sub(b) }
        };
        Case::Field { op: FOp::ZeroMask, a: { let mut l = [0; 16]; l[0] = x; l }, b: [0; 16] }
    }));
    for op in [FOp::Invert, FOp::Isr] {
        v.push(Space::new(&format!("fld-{:?}", op), "every subset of limbs full, small values, p - small", 16384 + 2048, move |i| {
            let a = if i < 16384 {
                bin(i * 4 + i % 4, 0, R)
            } else if i < 16384 + 1024 {
                limbs(&r::small(i - 16384))
            } else {
                limbs(&r::sbb(&r::P, &r::small(i - 16384 - 1023)).0)
            };
            Case::Field { op, a, b: [0; 16] }
        }));
    }
    v.push(Space::new("fld-expression-walk", "all op sequences of the walk, all pairs of dense starts", 256 * 9u64.pow(if th { 5 } else { 4 }), {
        let d = dense.clone();
        move |i| {
            let mut ops = vec![];
            let mut j = i / 256;
            for _ in 0..if th { 5 } else { 4 } {
                ops.push((j % EXPR_OPS) as u8);
                j /= EXPR_OPS;
            }
            Case::FieldExpr { a: d[(i % 16) as usize], b: d[(i / 16 % 16) as usize], ops }
        }
    }));
    v.push(Space::new("fld-Swap", "conditional swap, every subset", 65536, |i| Case::Field { op: FOp::Swap, a: bin(i, 3, R), b: bin(i ^ 0xffff, 7, M) }));
    v
}
#[cfg(feature = "int_field")]
fn limbs_of_p() -> crate::field::L {
    let mut p = [0xfff_ffff; 16];
    p[8] = 0xfff_fffe;
    p
}
#[cfg(not(feature = "int_field"))]
fn c08(th: bool) -> Vec<Space> {
    let mut v = api_field(true);
    v.extend(c07(th));
    v.extend(c03(th));
    v
}
/// field arithmetic as seen through the public API: decoding small and structured y, encoding
fn api_field(th: bool) -> Vec<Space> {
    let n = if th { 1 << 16 } else { 1 << 11 };
    vec![
        Space::new("api-limb-patterns", "key y with 28-bit limbs 0 or 2^28-1 through verification", n, move |i| {
            let i = i * 32 % 65536 + i / 2048;
            let mut y = r::ZERO;
            for k in 0..16 {
                if i >> k & 1 == 1 {
                    y = r::adc(&y, &n_shl(0xfff_ffff, 28 * k)).0;
                }
            }
            enc_case(r::to_le57(&y).to_vec(), 0)
        }),
        Space::new("api-near-p", "key y around p through verification", 512, |i| {
            let y = if i < 256 { r::sbb(&r::P, &r::small(i + 1)).0 } else { r::adc(&r::P, &r::small(i - 256)).0 };
            enc_case(r::to_le57(&y).to_vec(), 0)
        }),
        residues("api-single-limb-residue", true),
        Space::new("api-multiples-of-base", "public keys of raw scalars: field inversion and canonical encoding of jB", if th { 65536 } else { 8192 }, |i| {
            let mut n = pow2(447);
            n[0] |= 4 * i;
            Case::Derive { key: raw_of_n(&n), all_routes: false }
        }),
    ]
}

// ------------------------------------------------------------------ C09

fn c09(th: bool) -> Vec<Space> {
    let mut v = vec![];
    if !cfg!(feature = "int_scalar") {
        v.extend(c02(th).into_iter().filter(|s| !s.name.contains("lengths") && !s.name.contains("big")));
        v.extend(c05(th));
    }
    // S = r + k a through the API: edge a and edge nonces cannot be chosen together, so vary keys
    v.push(Space::new("api-sign-word-pattern", "S of signatures under raw keys {0, ffffffff}^14", 1 << if th { 14 } else { 12 }, move |i| {
        let i = if th { i } else { i * 4 + i % 4 };
        let mut k = [0u8; 57];
        for w in 0..14 {
            if i >> w & 1 == 1 {
                k[4 * w..4 * w + 4].fill(0xff)
            }
        }
        k[56] = 0x80;
        Case::SignExact { key: k.to_vec(), msg: Msg::Lit(vec![i as u8]) }
    }));
    v.push(Space::new("api-sign-messages", "S of signatures over counter messages", if th { 65536 } else { 8192 }, |i| Case::SignExact {
        key: key(180, i % 2 == 1).to_vec(),
        msg: Msg::Lit(i.to_le_bytes()[..4].to_vec()),
    }));
    #[cfg(feature = "int_scalar")]
    {
        use crate::scalarc::SOp;
        let es = edge_scalars(th);
        let ne = es.len() as u64;
        for op in [SOp::Add, SOp::Sub, SOp::Mul] {
            let es = es.clone();
            v.push(Space::new(&format!("sca-{:?}-edges", op), "all pairs of edge scalars", ne * ne, move |i| Case::Scalar { op, a: w_of_n(&es[(i / ne) as usize]), b: w_of_n(&es[(i % ne) as usize]) }));
            v.push(Space::new(&format!("sca-{:?}-words", op), "word patterns {0, ffffffff}^14 on both sides: every pattern against 64 rotations, complements and shifts", (1 << 14) * 64, move |i| {
                let a = i % (1 << 14);
                let j = i >> 14;
                let rot = ((a << (j % 14)) | (a >> (14 - j % 14))) & 0x3fff;
                let b = match j / 14 {
                    0 => rot,
                    1 => rot ^ 0x3fff,
                    2 => rot & (rot >> 1),
                    3 => rot | 1 << (j % 14),
                    _ => j,
                };
                Case::Scalar { op, a: w_of_n(&word_pattern(a)), b: w_of_n(&word_pattern(b)) }
            }));
        }
        for op in [SOp::Add, SOp::Sub] {
            let es = edge_scalars(true);
            v.push(Space::new(&format!("sca-{:?}-boundary", op), "operands whose sum (difference) is within 32 of q (of 0)", es.len() as u64 * 65, move |i| {
                let a = es[(i / 65) as usize];
                let d = i % 65;
                let base = if op == SOp::Add { r::qsub(&r::ZERO, &a) } else { a };
                let b = if d < 32 { r::qsub(&base, &r::small(32 - d)) } else { r::qadd(&base, &r::small(d - 32)) };
                Case::Scalar { op, a: w_of_n(&a), b: w_of_n(&b) }
            }));
            v.push(Space::new(&format!("sca-{:?}-boundary-words", op), "word patterns whose partner brings the sum (difference) to q - 1, q, q + 1", (1 << 14) * 3, move |i| {
                let a = r::q_reduce(&word_pattern(i / 3));
                let base = if op == SOp::Add { r::qsub(&r::ZERO, &a) } else { a };
                let b = match i % 3 {
                    0 => r::qsub(&base, &r::ONE),
                    1 => base,
                    _ => r::qadd(&base, &r::ONE),
                };
                Case::Scalar { op, a: w_of_n(&a), b: w_of_n(&b) }
            }));
        }
        for op in [SOp::Halve, SOp::Encode] {
            let es = edge_scalars(true);
            let n = es.len() as u64;
            v.push(Space::new(&format!("sca-{:?}", op), "edge scalars and word patterns, even and odd", n + (1 << 15), move |i| {
                let a = if i < n {
                    es[i as usize]
                } else {
                    let mut x = word_pattern((i - n) / 2);
                    if (i - n) % 2 == 1 {
                        x[0] ^= 1
                    }
                    r::q_reduce(&x)
                };
                Case::Scalar { op, a: w_of_n(&a), b: [0; 14] }
            }));
        }
        v.push(Space::new("sca-decode-lengths", "wide reduction of every length 0..=240, seven fills", 241 * 7, |i| {
            let n = (i / 7) as usize;
            let b = match i % 7 {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => stream(n as u64, n),
                3 => {
                    let mut b = vec![0; n];
                    if n > 0 {
                        b[n - 1] = 0xff
                    }
                    b
                }
                4 => r::to_le56(&r::Q).iter().cycle().take(n).copied().collect(),
                5 => r::to_le56(&r::sbb(&r::Q, &r::ONE).0).iter().cycle().take(n).copied().collect(),
                _ => vec![0x80; n],
            };
            Case::DecodeLong { bytes: b }
        }));
        for len in [56usize, 57, 114] {
            v.push(Space::new(&format!("sca-decode-{}-bytes", len), "every byte position x every value on zeros, ones and a generic base", len as u64 * 256 * 3, move |i| {
                let mut b = match i % 3 {
                    0 => vec![0; len],
                    1 => vec![0xff; len],
                    _ => stream(3, len),
                };
                b[(i / 3 / 256) as usize] = (i / 3) as u8;
                Case::DecodeLong { bytes: b }
            }));
            v.push(Space::new(&format!("sca-decode-{}-words", len), "4-byte words all 00 or all ff", 1 << if len == 114 { if th { 22 } else { 18 } } else { 14 }, move |i| {
                let mut b = vec![0u8; len];
                for (k, x) in b.iter_mut().enumerate() {
                    let w = k / 4;
                    let bit = if len == 114 && w >= 14 { i >> (w - 14).min(15) & 1 ^ (i >> (w % 14) & 1) } else { i >> w.min(17) & 1 };
                    if bit == 1 {
                        *x = 0xff
                    }
                }
                Case::DecodeLong { bytes: b }
            }));
        }
        v.push(Space::new("sca-decode-near-kq", "57-byte integers kq + d, every k, d in -8..8", 1023 * 17, |i| {
            let k = i / 17;
            let d = i % 17;
            let b = match add_kq(&r::small(d), k) {
                Some(b) => b,
                None => [0xff; 57],
            };
            // shift down by 8 unless it would go negative
            let mut x = b;
            if k > 0 {
                let mut br = 8i32;
                for y in x.iter_mut() {
                    let z = *y as i32 - br;
                    *y = z as u8;
                    br = if z < 0 { 1 } else { 0 };
                }
            }
            Case::DecodeLong { bytes: x.to_vec() }
        }));
        v.push(Space::new("sca-decode-q-shifted", "q << j and (q << j) +- 1 in 114 bytes", 466 * 3, |i| {
            let j = (i / 3) as usize;
            let mut b = vec![0u8; 114];
            let q = r::to_le56(&r::Q);
            for bit in 0..446 {
                if q[bit / 8] >> (bit % 8) & 1 == 1 {
                    let t = bit + j;
                    b[t / 8] |= 1 << (t % 8);
                }
            }
            match i % 3 {
                1 => {
                    for y in b.iter_mut() {
                        *y = y.wrapping_add(1);
                        if *y != 0 {
                            break;
                        }
                    }
                }
                2 => {
                    for y in b.iter_mut() {
                        *y = y.wrapping_sub(1);
                        if *y != 255 {
                            break;
                        }
                    }
                }
                _ => {}
            }
            Case::DecodeLong { bytes: b }
        }));
    }
    v
}

// ------------------------------------------------------------------ C10

fn api_groupv(th: bool) -> Vec<Space> {
    // verification exercises both variable-base routines: S on the fixed base, -k on the key
    let es = edge_scalars(th);
    let ne = es.len() as u64;
    vec![
        Space::new("api-response-digits", "S = d 2^i with A = identity: every window digit and position of the base multiplier", if th { 446 * 32 } else { 446 * 2 }, move |i| {
            let (pos, d) = if th { (i % 446, 2 * (i / 446) + 1) } else { (i % 446, [1u64, 63][(i / 446) as usize]) };
            let s = r::q_reduce(&n_shl(d, pos as usize));
            let mut sig = r::base_mul(&s).encode().to_vec();
            sig.extend_from_slice(&r::to_le57(&s));
            Case::Verify { pk: r::IDENT.encode().to_vec(), sig, msg: Msg::Lit(vec![]), class: false }
        }),
        Space::new("api-edge-keys", "valid signatures under A = aB for edge a", ne, move |i| {
            let m = vec![i as u8, 1];
            let (pk, sig) = forge(&es[i as usize], 0, &pt_scalar(62), 0, &m);
            Case::Verify { pk, sig, msg: Msg::Lit(m), class: false }
        }),
    ]
}
fn c10(th: bool) -> Vec<Space> {
    #[allow(unused_mut)]
    let mut v = api_groupv(th || !cfg!(feature = "pt_methods"));
    if !cfg!(feature = "pt_methods") {
        v.extend(c04(th).into_iter().filter(|s| !s.name.contains("msg") && !s.name.contains("message")));
        v.extend(c05(th));
    }
    #[cfg(feature = "pt_methods")]
    {
        let bg = |t: u64| -> r::N {
            match t {
                0 => r::ZERO,
                1 => r::sbb(&pow2(445), &r::ONE).0,
                _ => n_of_bytes(&{
                    let mut s = stream(700 + t, 56);
                    s[55] = 0;
                    s
                }),
            }
        };
        let put = move |b: r::N, bit: usize, width: usize, d: u64| -> r::N {
            let mut n = b;
            for k in 0..width {
                let p = bit + k;
                if p >= 448 {
                    continue;
                }
                n[p / 64] &= !(1 << (p % 64));
                n[p / 64] |= (d >> k & 1) << (p % 64);
            }
            n
        };
        v.push(Space::new("var-window-digits", "every 5-bit digit at every window, on backgrounds of zeros, ones, generic", 90 * 32 * 3, move |i| {
            let (w, d, t) = (i % 90, i / 90 % 32, i / 2880);
            let x = r::q_reduce(&put(bg(t), 5 * w as usize, 5, d));
            Case::VarMul { a: pt_scalar(40), s: w_of_n(&from_digits(&x)) }
        }));
        v.push(Space::new("var-window-pairs", "every pair of digits in adjacent windows (quick: digits at the extremes)", if th { 89 * 1024 } else { 89 * 64 }, move |i| {
            let (w, d) = (i % 89, i / 89);
            let d = if th {
                d
            } else {
                let al = [0u64, 1, 15, 16, 17, 30, 31, 8];
                al[(d % 8) as usize] | al[(d / 8) as usize] << 5
            };
            let x = r::q_reduce(&put(bg(2), 5 * w as usize, 10, d));
            Case::VarMul { a: pt_scalar(40), s: w_of_n(&from_digits(&x)) }
        }));
        let es = edge_scalars(th);
        let ep = edge_points();
        let (ne, np) = (es.len() as u64, ep.len() as u64);
        {
            let (es, ep) = (es.clone(), ep.clone());
            v.push(Space::new("var-edge-scalars", "edge scalars x edge points (identity-like, small multiples, negatives)", ne * np.min(if th { 99 } else { 5 }), move |i| Case::VarMul { a: ep[(i / ne) as usize], s: w_of_n(&es[(i % ne) as usize]) }));
        }
        v.push(Space::new("dbl-base-digits", "s1 = +-d 2^i for every odd d < 64 and every i, s2 = 0 or generic", 446 * 32 * 2, move |i| {
            let (p, d, t) = (i % 446, 2 * (i / 446 % 32) + 1, i / (446 * 32));
            let mut s = r::q_reduce(&n_shl(d, p as usize));
            if (p + d) % 4 == 1 {
                s = r::qsub(&r::ZERO, &s)
            }
            let s2 = if t == 0 { r::ZERO } else { pt_scalar(43) };
            Case::DblMul { a: pt_scalar(40), s1: w_of_n(&s), s2: w_of_n(&s2) }
        }));
        v.push(Space::new("dbl-key-digits", "s2 = +-d 2^i for every odd d < 16 and every i, s1 = 0 or generic", 446 * 8 * 2 * 2, move |i| {
            let (p, d, t) = (i % 446, 2 * (i / 446 % 8) + 1, i / (446 * 8));
            let mut s = r::q_reduce(&n_shl(d, p as usize));
            if t & 1 == 1 {
                s = r::qsub(&r::ZERO, &s)
            }
            let s1 = if t & 2 == 0 { r::ZERO } else { pt_scalar(44) };
            Case::DblMul { a: pt_scalar(40), s1: w_of_n(&s1), s2: w_of_n(&s) }
        }));
        v.push(Space::new("dbl-borrow-digits", "2^j - d 2^i: negative digits at every position, on each side", 446 * 4 * 2, move |i| {
            let (p, d, t) = (i % 446, [1u64, 3, 7, 31][(i / 446 % 4) as usize], i / (446 * 4));
            let j = (p as usize + 9).min(445);
            let s = r::qsub(&pow2(j), &r::q_reduce(&n_shl(d, p as usize)));
            let o = r::small(if i % 3 == 0 { 0 } else { 1 });
            let (s1, s2) = if t == 0 { (s, o) } else { (o, s) };
            Case::DblMul { a: pt_scalar(40), s1: w_of_n(&s1), s2: w_of_n(&s2) }
        }));
        v.push(Space::new("dbl-aligned", "leading digits of the two scalars at equal and neighbouring powers", 446 * 5 * 2 * 2, move |i| {
            let p = i % 446;
            let q = (p + i / 446 % 5).saturating_sub(2).min(445);
            let (d1, d2) = ([1u64, 63][(i / 2230 % 2) as usize], [1u64, 13][(i / 4460) as usize]);
            Case::DblMul { a: pt_scalar(40), s1: w_of_n(&r::q_reduce(&n_shl(d1, p as usize))), s2: w_of_n(&r::q_reduce(&n_shl(d2, q as usize))) }
        }));
        {
            let es = edge_scalars(false);
            let n = es.len() as u64;
            let st = if th { 1 } else { 5 };
            let m = n / st;
            v.push(Space::new("dbl-edge-pairs", "edge scalars on both sides (quick: every fifth)", m * m, move |i| Case::DblMul { a: pt_scalar(40), s1: w_of_n(&es[(i / m * st) as usize]), s2: w_of_n(&es[(i % m * st) as usize]) }));
        }
        v.push(Space::new("dbl-small-grid", "s1, s2 in -20..20 (including 0, cancellation and doubling) x edge points", 41 * 41 * if th { np } else { 2 }, {
            let ep = ep.clone();
            move |i| {
                let f = |t: u64| if t < 20 { r::qsub(&r::ZERO, &r::small(20 - t)) } else { r::small(t - 20) };
                Case::DblMul { a: ep[(i / 1681) as usize], s1: w_of_n(&f(i % 41)), s2: w_of_n(&f(i / 41 % 41)) }
            }
        }));
        let depth = if th { 5 } else { 4 };
        v.push(Space::new("group-walk", "all sequences of point operations from the alphabet of ten", crate::group::WALK_OPS.pow(depth), move |i| {
            let mut j = i;
            let mut ops = vec![];
            for _ in 0..depth {
                ops.push((j % crate::group::WALK_OPS) as u8);
                j /= crate::group::WALK_OPS;
            }
            Case::Walk { start: pt_scalar(45), ops }
        }));
        {
            let ep = ep.clone();
            v.push(Space::new("group-walk-edge-points", "all length-2 sequences from edge points", np * 100, move |i| Case::Walk { start: ep[(i / 100) as usize], ops: vec![(i % 10) as u8, (i / 10 % 10) as u8] }));
        }
    }
    #[cfg(feature = "int_point")]
    {
        for bits in [3u8, 5] {
            v.push(Space::new(&format!("recode-{}-window16", bits), "every 16-bit pattern at positions straddling word boundaries, with and without a carry from below", 65536 * if th { 28 } else { 4 }, move |i| {
                let w = if th { i / 65536 } else { [0u64, 1, 14, 27][(i / 65536) as usize] } as usize;
                let mut n = r::ZERO;
                n[w / 4] = (i & 0xffff) << (16 * (w % 4));
                if i & 4 == 4 && w > 0 {
                    // all ones below: a negative digit carries into the pattern
                    n[(w - 1) / 4] |= 0xffff << (16 * ((w - 1) % 4));
                }
                Case::Recode { s: w_of_n(&r::q_reduce(&n)), bits }
            }));
            v.push(Space::new(&format!("recode-{}-offset8", bits), "every 16-bit pattern at odd byte offsets", 65536 * if th { 27 } else { 2 }, move |i| {
                let w = if th { i / 65536 } else { [1u64, 13][(i / 65536) as usize] } as usize;
                let n = n_shl(i & 0xffff, 16 * w + 8);
                Case::Recode { s: w_of_n(&r::q_reduce(&n)), bits }
            }));
            v.push(Space::new(&format!("recode-{}-words", bits), "word patterns {0, ffffffff}^14", 1 << 14, move |i| Case::Recode { s: w_of_n(&r::q_reduce(&word_pattern(i))), bits }));
            let es = edge_scalars(true);
            v.push(Space::new(&format!("recode-{}-edges", bits), "edge scalars", es.len() as u64, move |i| Case::Recode { s: w_of_n(&es[i as usize]), bits }));
        }
    }
    v
}

// ------------------------------------------------------------------ C11

fn comb_put(b: r::N, i: usize, j: usize, tab: u64) -> r::N {
    let mut n = b;
    for k in 0..5 {
        let p = i + 18 * (k + 5 * j);
        if p < 446 {
            n[p / 64] &= !(1 << (p % 64));
            n[p / 64] |= (tab >> k & 1) << (p % 64);
        }
    }
    n
}
fn c11(th: bool) -> Vec<Space> {
    let bg = |t: u64| -> r::N {
        match t {
            0 => r::ZERO,
            1 => r::sbb(&pow2(445), &r::ONE).0,
            _ => n_of_bytes(&{
                let mut s = stream(720 + t, 56);
                s[55] = 0;
                s
            }),
        }
    };
    let mut v = vec![];
    if !cfg!(feature = "int_point") {
        v.extend(c03(th));
    }
    // through the API: raw keys whose recoded scalar has the chosen comb digit
    v.push(Space::new("api-comb-digits", "raw keys hitting every (row, comb, digit) where the clamped range allows", 18 * 5 * 32 * 2, move |i| {
        let (row, j, tab, t) = ((i % 18) as usize, (i / 18 % 5) as usize, i / 90 % 32, 2 + i / 2880);
        let x = r::q_reduce(&comb_put(bg(t), row, j, tab));
        let s = r::qmul(&r::small(4), &from_digits(&x));
        match raw_key_of(&s) {
            Some(k) => Case::Derive { key: k.to_vec(), all_routes: false },
            None => Case::Derive { key: raw_of_n(&s), all_routes: false },
        }
    }));
    v.push(Space::new("api-counter-scalars", "raw scalars 2^447 + 4i", if th { 1 << 18 } else { 1 << 14 }, |i| {
        let mut n = pow2(447);
        n[0] |= 4 * i;
        Case::Derive { key: raw_of_n(&n), all_routes: false }
    }));
    #[cfg(feature = "int_point")]
    {
        v.push(Space::new("comb-digits", "every (row < 18, comb < 5, digit < 32) on zeros, ones and generic backgrounds", 18 * 5 * 32 * 4, move |i| {
            let (row, j, tab, t) = ((i % 18) as usize, (i / 18 % 5) as usize, i / 90 % 32, i / 2880);
            let x = r::q_reduce(&comb_put(bg(t), row, j, tab));
            Case::FixMul { s: w_of_n(&from_digits(&x)) }
        }));
        v.push(Space::new("comb-digit-pairs", "every pair of digits of neighbouring combs in one row", 18 * 5 * 1024 / if th { 1 } else { 4 }, move |i| {
            let i = if th { i } else { i * 4 + i % 4 };
            let (row, j, t1, t2) = ((i % 18) as usize, (i / 18 % 5) as usize, i / 90 % 32, i / 2880 % 32);
            let (r2, j2) = if j < 4 { (row, j + 1) } else { ((row + 1) % 18, 0) };
            let x = r::q_reduce(&comb_put(comb_put(bg(3), row, j, t1), r2, j2, t2));
            Case::FixMul { s: w_of_n(&from_digits(&x)) }
        }));
        let es = edge_scalars(true);
        v.push(Space::new("comb-edge-scalars", "edge scalars", es.len() as u64, move |i| Case::FixMul { s: w_of_n(&es[i as usize]) }));
        v.push(Space::new("comb-small-scalars", "0, 1, 2, .. and their negatives", if th { 1 << 17 } else { 1 << 14 }, |i| {
            let s = r::small(i / 2);
            Case::FixMul { s: w_of_n(&if i % 2 == 0 { s } else { r::qsub(&r::ZERO, &s) }) }
        }));
        v.push(Space::new("comb-word-patterns", "words all zeros or all ones", 1 << 14, |i| Case::FixMul { s: w_of_n(&r::q_reduce(&word_pattern(i))) }));
        v.push(Space::new("comb-two-powers", "2^i + 2^j", 446 * 447 / 2 / if th { 1 } else { 4 }, move |i| {
            let i = if th { i } else { i * 4 + i % 4 };
            let (mut a, mut left) = (0u64, i);
            while left >= 446 - a {
                left -= 446 - a;
                a += 1;
            }
            Case::FixMul { s: w_of_n(&r::qadd(&pow2(a as usize), &pow2((a + left) as usize))) }
        }));
    }
    v
}

// ------------------------------------------------------------------ C12

fn c12(th: bool) -> Vec<Space> {
    let mut v = vec![];
    v.push(Space::new("con-key-bytes", "every byte position x every value through the seven conversions", 57 * 256, |i| {
        let mut k = key(190, i % 2 == 0);
        k[(i / 256) as usize] = i as u8;
        Case::Route { bytes: k.to_vec(), steps: if i % 16 == 0 { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![0, 1, 4, 2] } }
    }));
    let depth = if th { 5u32 } else { 4 };
    let n = crate::containers::ROUTE_STEPS;
    v.push(Space::new("con-routes", "all sequences of conversions", n.pow(depth) * 2, move |i| {
        let mut j = i / 2;
        let steps = (0..depth)
            .map(|_| {
                let s = (j % n) as u8;
                j /= n;
                s
            })
            .collect();
        Case::Route { bytes: key(191 + i % 2, i % 2 == 0).to_vec(), steps }
    }));
    v.push(Space::new("con-equality-bits", "keys differing in one bit are different, both forms", 456 * 2, |i| {
        let a = key(195, i % 2 == 0).to_vec();
        let mut b = a.clone();
        b[(i / 16) as usize] ^= 1 << (i / 2 % 8);
        Case::EqPair { a, b }
    }));
    v.push(Space::new("con-equality-matrix", "all pairs of structured keys", 64 * 64, |i| {
        let k = |t: u64| -> Vec<u8> {
            if t < 16 {
                vec![t as u8 * 17; 57]
            } else if t < 40 {
                let mut k = vec![0; 57];
                k[(t - 16) as usize * 2 + 8] = 1;
                k
            } else {
                key(t, t % 2 == 1).to_vec()
            }
        };
        Case::EqPair { a: k(i / 64), b: k(i % 64) }
    }));
    v.push(Space::new("con-lengths", "slices of every length 0..600 but 57, four fills", 600 * 4, |i| Case::BadLen { n: (i / 4) as usize, fill: [0, 0xff, 1, 0x80][(i % 4) as usize] }));
    v.push(Space::new("con-lengths-long", "slices of 57 k bytes, and of lengths that agree with 57 in their low bits, four fills", (64 + 16) * 4, |i| {
        let j = i / 4;
        let n = if j < 64 { 57 * (j + 2) } else { 57 + (256 << (j - 64)) };
        Case::BadLen { n: n as usize, fill: [0, 0xff, 1, 0x80][(i % 4) as usize] }
    }));
    v.push(Space::new("con-equality-two-bytes", "keys differing in two bytes so that their sum or xor agrees, or by a swap: every pair of positions, both forms", 57 * 57 * 4 * 2, |i| {
        let (how, p, q) = (i / 2 % 4, (i / 8 / 57) as usize, (i / 8 % 57) as usize);
        let a = key(197, i % 2 == 0).to_vec();
        let mut b = a.clone();
        match how {
            0 => {
                b[p] ^= 0x21;
                b[q] ^= 0x21;
            }
            1 => {
                b[p] = b[p].wrapping_add(5);
                b[q] = b[q].wrapping_sub(5);
            }
            2 => b.swap(p, q),
            _ => b.rotate_left(p),
        }
        Case::EqPair { a, b }
    }));
    v.push(Space::new("con-sparse-keys", "keys of equal bytes (every value), of one bit, of all bits but one, through the conversions", 256 + 456 * 2, |i| {
        let k = if i < 256 {
            vec![i as u8; 57]
        } else {
            let (b, inv) = ((i - 256) / 2, i % 2 == 1);
            let mut k = vec![if inv { 0xff } else { 0 }; 57];
            k[(b / 8) as usize] ^= 1 << (b % 8);
            k
        };
        Case::Route { bytes: k, steps: vec![0, 1, 2, 3, 4, 5, 6] }
    }));
    v.push(Space::new("con-derive-routes", "all derivation routes agree", 57 * 4, |i| {
        let mut k = key(196, i % 2 == 0);
        k[(i / 4) as usize] ^= 1 << (i % 4 * 2);
        Case::Derive { key: k.to_vec(), all_routes: true }
    }));
    v
}

// ------------------------------------------------------------------ C13

/// what surrounds hex text in files and on command lines
fn decorations() -> Vec<&'static str> {
    vec![
        "", " ", "  ", "\t", "\n", "\r\n", "\r", "\0", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\u{feff}", "0x", "0X", "x", "#", "\\x", "h", "$", "'", "\"", "-", "+", "_", ":", ",", ";", "=", ".", "/",
        "{", "}", "[", "]", "(", ")", "<", ">", "g", "%20", "0x0x", "\\n", "\\u0030",
    ]
}
const SEPS: [&str; 11] = [" ", ":", "-", "_", ",", "\n", "\r\n", "\t", ".", "\0", "0x"];
fn separated(t: &str, sep: &str, g: usize) -> String {
    t.as_bytes().chunks(g).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join(sep)
}
fn hexes(n: usize) -> String {
    "0123456789abcdef".chars().cycle().take(n).collect()
}
fn c13(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let hexs = |t: u64| hex(&key(210 + t, t % 2 == 1));
    v.push(Space::new("ser-roundtrip", "every byte position x every value, three types", 57 * 256 * 3, |i| {
        let mut k = key(220, i % 2 == 0);
        k[(i / 3 / 256) as usize] = (i / 3) as u8;
        Case::Json { kind: (i % 3) as u8, doc: crate::containers::quoted_hex(&k), want: Some(hex(&k)) }
    }));
    v.push(Space::new("ser-route", "serialise-deserialise chains, byte positions x 16 values", 57 * 16, |i| {
        let mut k = key(221, i % 2 == 0);
        k[(i / 16) as usize] = (i % 16) as u8 * 17;
        Case::Route { bytes: k.to_vec(), steps: vec![1, 5, 1, 0] }
    }));
    v.push(Space::new("ser-form", "serialised form, byte positions x 16 values, three types, eight serializers and positions in a document (map key, sequence, binary format)", 57 * 16 * 3 * crate::containers::SER_FORMS, |i| {
        let f = crate::containers::SER_FORMS;
        let j = i / 3 / f;
        let mut k = key(222, i % 2 == 0);
        k[(j / 16) as usize] = (j % 16) as u8 * 17;
        Case::SerForm { kind: (i % 3) as u8, bytes: k.to_vec(), how: (i / 3 % f) as u8 }
    }));
    v.push(Space::new("ser-fills", "keys of 57 equal bytes, every byte value, three types: text through five deserializers, and the serialised form", 256 * 3 * 6, |i| {
        let (fill, how) = ((i / 18) as u8, (i / 3 % 6) as u8);
        let t = hex(&[fill; 57]);
        if how == 5 {
            return Case::SerForm { kind: (i % 3) as u8, bytes: vec![fill; 57], how: 0 };
        }
        Case::JsonMem { kind: (i % 3) as u8, text: t.clone(), how, want: Some(t) }
    }));
    v.push(Space::new("ser-long", "hex strings of 114 k characters, and of lengths that agree with 114 in their low bits", (64 + 16) * 3, |i| {
        let j = i / 3;
        let n = if j < 64 { 114 * (j + 2) } else { 114 + (256 << (j - 64)) };
        Case::JsonMem { kind: (i % 3) as u8, text: hexes(n as usize), how: 3 + (i % 2) as u8, want: None }
    }));
    v.push(Space::new("ser-separated", "valid hex with a separator after every group of g characters", SEPS.len() as u64 * 114 * 3, move |i| {
        let (sep, g) = (SEPS[(i / 3 / 114) as usize], (i / 3 % 114) as usize + 1);
        Case::JsonMem { kind: (i % 3) as u8, text: separated(&hexs(8), sep, g), how: 3 + (i % 2) as u8, want: if g == 114 { Some(hexs(8)) } else { None } }
    }));
    v.push(Space::new("ser-lengths", "hex strings of every length 0..400", 400 * 3, |i| {
        let n = (i / 3) as usize;
        let t: String = "0123456789abcdef".chars().cycle().take(n).collect();
        Case::Json { kind: (i % 3) as u8, doc: format!("\"{}\"", t), want: if n == 114 { Some(t) } else { None } }
    }));
    v.push(Space::new("ser-one-bad-character", "every position x every ASCII character: refused unless hex", 114 * 128 * if th { 3 } else { 1 }, move |i| {
        let kind = if th { i / (114 * 128) } else { i % 3 } as u8;
        let (p, c) = ((i / 128 % 114) as usize, (i % 128) as u8);
        let mut t = hexs(0).into_bytes();
        t[p] = c;
        let t = String::from_utf8(t).unwrap();
        let ok = c.is_ascii_hexdigit();
        // through a text deserializer: no JSON escaping in the way
        Case::JsonMem { kind, text: t.clone(), how: 3 + (i % 2) as u8, want: if ok { Some(t.to_lowercase()) } else { None } }
    }));
    v.push(Space::new("ser-unicode", "multi-byte characters at every position", 114 * 4 * 3, move |i| {
        let (p, c) = ((i / 12) as usize, ['é', '\u{ff10}', '\u{1f600}', '\u{0}'][(i % 4) as usize]);
        let t = hexs(1);
        let mut s = t[..p].to_string();
        s.push(c);
        s.push_str(&t[p + 1..]);
        Case::JsonMem { kind: (i / 4 % 3) as u8, text: s, how: 2, want: None }
    }));
    v.push(Space::new("ser-case-and-prefix", "upper case, mixed case, 0x prefix, spaces, odd counts, through every text deserializer", 12 * 5 * 3, move |i| {
        let t = hexs(2);
        let (text, ok) = match i / 15 {
            0 => (t.clone(), true),
            1 => (t.to_uppercase(), true),
            2 => (t.chars().enumerate().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(), true),
            3 => (format!("0x{}", t), false),
            4 => (format!("0x{}", &t[2..]), false),
            5 => (format!(" {}", t), false),
            6 => (format!("{} ", t), false),
            7 => (t[1..].to_string(), false),
            8 => (format!("{}0", t), false),
            9 => (format!("{}00", t), false),
            10 => (t[2..].to_string(), false),
            _ => (String::new(), false),
        };
        Case::JsonMem { kind: (i % 3) as u8, how: (i / 3 % 5) as u8, want: if ok { Some(t) } else { None }, text }
    }));
    v.push(Space::new("ser-not-human-readable", "binary formats are refused", 5 * 3 * 2, move |i| Case::JsonMem {
        kind: (i % 3) as u8,
        text: if i % 2 == 0 { hexs(3) } else { "00".into() },
        how: 10 + (i / 6) as u8,
        want: None,
    }));
    let docs: Vec<String> = {
        let t = hexs(4);
        let arr = format!("[{}]", key(214, false).iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
        [
            "null", "true", "false", "0", "-1", "1e5", "[]", "{}", "\"\"", "\"", "", "x", "[\"00\"]", "{\"key\":\"00\"}", "\"\\u0000\"", "\"\\ud800\"",
        ]
        .iter()
        .map(|s| s.to_string())
        .chain((0..180).map(|n| format!("[{}]", vec!["7"; n].join(","))))
        .chain([32usize, 56, 57, 58, 114].iter().flat_map(|&n| {
            ["0", "-1", "256", "0.5", "\"07\"", "\"7\"", "true", "null"].iter().map(move |e| format!("[{}]", vec![*e; n].join(","))).collect::<Vec<_>>()
        }))
        .chain(["key", "secret_key", "verifying_key", "bytes", "hex", "0", "$", ""].iter().map(|k| format!("{{\"{}\":\"{}\"}}", k, t)))
        .chain([format!("[[\"{}\"]]", t), format!("[\"{}\",\"{}\"]", t, t), format!("{{\"secret_key\":\"{}\",\"verifying_key\":\"{}\"}}", t, t)])
        .chain([arr, format!("[\"{}\"]", t), format!("{{\"key\":\"{}\"}}", t), format!("\"{}", t), t.clone(), format!("\"{}\" x", t), format!("\"{}\"\"\"", t)])
        .collect()
    };
    v.push(Space::new("ser-other-documents", "JSON of other types and malformed JSON", docs.len() as u64 * 3, move |i| Case::Json { kind: (i % 3) as u8, doc: docs[(i / 3) as usize].clone(), want: None }));
    v.push(Space::new("ser-escapes", "JSON escapes spelling a hex digit at every position", 114 * 3, move |i| {
        let t = hexs(5);
        let p = (i / 3) as usize;
        let doc = format!("\"{}\\u{:04x}{}\"", &t[..p], t.as_bytes()[p], &t[p + 1..]);
        Case::Json { kind: (i % 3) as u8, doc, want: Some(t) }
    }));
    v.push(Space::new("ser-one-character-inserted", "one ASCII character inserted at every position, before the first and after the last", 115 * 128 * if th { 3 } else { 1 }, move |i| {
        let kind = if th { i / (115 * 128) } else { i % 3 } as u8;
        let mut t = hexs(6);
        t.insert((i / 128 % 115) as usize, (i % 128) as u8 as char);
        Case::JsonMem { kind, text: t, how: 3 + (i % 2) as u8, want: None }
    }));
    let deco = decorations();
    let nd = deco.len() as u64;
    {
        let deco = deco.clone();
        v.push(Space::new("ser-decorations", "valid hex with every pair of a prefix and a suffix from a list of separators, quotes, blanks and radix marks", nd * nd * 3, move |i| {
            let (p, q) = (deco[(i / 3 / nd) as usize], deco[(i / 3 % nd) as usize]);
            let t = hexs(7);
            let want = if p.is_empty() && q.is_empty() { Some(t.clone()) } else { None };
            Case::JsonMem { kind: (i % 3) as u8, text: format!("{}{}{}", p, t, q), how: 3 + (i / 3 % 2) as u8, want }
        }));
    }
    for (kind, bytes) in [(0u8, 57usize), (1, 114), (2, 32), (3, 57), (4, 57), (5, 57)] {
        v.push(Space::new(&format!("txt-{}-one-character-inserted", kind), "one ASCII character inserted at every position, before the first and after the last", (2 * bytes as u64 + 1) * 128, move |i| {
            let mut t = hex(&stream(11, bytes));
            t.insert((i / 128) as usize, (i % 128) as u8 as char);
            Case::Text { kind, text: t, want: None }
        }));
        let deco = deco.clone();
        v.push(Space::new(&format!("txt-{}-decorations", kind), "valid hex with every pair of a prefix and a suffix, and with the decoration in place of as many digits", nd * nd * 2, move |i| {
            let (p, q) = (deco[(i / 2 / nd) as usize], deco[(i / 2 % nd) as usize]);
            let t = hex(&stream(12, bytes));
            let want = if p.is_empty() && q.is_empty() { Some(t.clone()) } else { None };
            let text = if i % 2 == 0 { format!("{}{}{}", p, t, q) } else { format!("{}{}{}", p, &t[p.len()..t.len() - q.len()], q) };
            Case::Text { kind, text, want }
        }));
        v.push(Space::new(&format!("txt-{}-fills", kind), "equal bytes, every value, lower and upper case", 512, move |i| {
            let t = hex(&vec![(i / 2) as u8; bytes]);
            Case::Text { kind, want: Some(t.clone()), text: if i % 2 == 0 { t } else { t.to_uppercase() } }
        }));
        v.push(Space::new(&format!("txt-{}-long", kind), "multiples of the exact length, and lengths that agree with it in their low bits", 64 + 16, move |i| {
            let n = 2 * bytes + if i < 64 { 2 * bytes * (i as usize + 1) } else { 256 << (i - 64) };
            Case::Text { kind, want: None, text: hexes(n) }
        }));
        v.push(Space::new(&format!("txt-{}-separated", kind), "valid hex with a separator after every group of g characters", SEPS.len() as u64 * 2 * bytes as u64, move |i| {
            let (sep, g) = (SEPS[(i / (2 * bytes as u64)) as usize], (i % (2 * bytes as u64)) as usize + 1);
            let t = hex(&stream(13, bytes));
            Case::Text { kind, text: separated(&t, sep, g), want: if g == 2 * bytes { Some(t) } else { None } }
        }));
        v.push(Space::new(&format!("txt-{}-unicode", kind), "a character of two to four bytes in place of one, two, three or four digits, at every position", 2 * bytes as u64 * 4 * 5, move |i| {
            let c = ['é', '\u{ff10}', '\u{0660}', '\u{1f600}', '\u{1d7d8}'][(i % 5) as usize];
            let (cut, p) = ((i / 5 % 4) as usize + 1, (i / 20) as usize);
            let t = hex(&stream(14, bytes));
            Case::Text { kind, text: format!("{}{}{}", &t[..p], c, &t[(p + cut).min(t.len())..]), want: None }
        }));
        v.push(Space::new(&format!("txt-{}-lengths", kind), "hex text of every length; only the exact one yields a value", 2 * bytes as u64 * 2 + 40, move |i| {
            let t: String = "fedcba9876543210".chars().cycle().take(i as usize).collect();
            Case::Text { kind, want: if i as usize == 2 * bytes { Some(t.clone()) } else { None }, text: t }
        }));
        v.push(Space::new(&format!("txt-{}-characters", kind), "every position x every ASCII character", 2 * bytes as u64 * 128, move |i| {
            let mut t = hex(&stream(9, bytes)).into_bytes();
            let c = (i % 128) as u8;
            t[(i / 128) as usize] = c;
            let t = String::from_utf8(t).unwrap();
            Case::Text { kind, want: if c.is_ascii_hexdigit() { Some(t.to_lowercase()) } else { None }, text: t }
        }));
        v.push(Space::new(&format!("txt-{}-bytes", kind), "every byte position x every value", bytes as u64 * 256, move |i| {
            let mut b = stream(10, bytes);
            b[(i / 256) as usize] = i as u8;
            Case::Text { kind, want: Some(hex(&b)), text: hex(&b) }
        }));
    }
    v
}

// ------------------------------------------------------------------ C14

fn c14(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for raw in [false, true] {
        let f = if raw { "raw" } else { "seed" };
        v.push(Space::new(&format!("ext-key-bytes-{}", f), "every byte position of the key x 16 values", 57 * if th { 64 } else { 16 }, move |i| {
            let n = if th { 64 } else { 16 };
            Case::Prehash { key: pos_key(key(230, raw), (i / n) as usize, ((i % n) * (256 / n)) as u8 ^ 3), msg: Msg::Pat(32, 1) }
        }));
        v.push(Space::new(&format!("ext-prehash-lengths-{}", f), "prehash of every length from 0", if th { 40_000 } else { 8_500 }, move |i| Case::Prehash { key: key(231, raw).to_vec(), msg: Msg::Pat(i as usize, 2) }));
        let st = structured(&key(236, raw), th);
        v.push(Space::new(&format!("ext-structured-prehash-{}", f), "prehash made of the signer's own data, protocol constants, constant fills, runs, single bits, texts", st.len() as u64, move |i| {
            Case::Prehash { key: key(236, raw).to_vec(), msg: Msg::Lit(st[i as usize].clone()) }
        }));
        v.push(Space::new(&format!("ext-prehash-bytes-{}", f), "32-byte prehash, every byte x 32 values", 32 * 32, move |i| {
            let mut m = stream(12, 32);
            m[(i / 32) as usize] = (i % 32) as u8 * 8 + 1;
            Case::Prehash { key: key(232, raw).to_vec(), msg: Msg::Lit(m) }
        }));
    }
    let b = big_lens(if th { 25 } else { 23 });
    v.push(Space::new("ext-big-prehash", "prehash lengths around powers of two and hash block boundaries", b.len() as u64, move |i| {
        Case::Prehash { key: key(235, i & 1 == 1).to_vec(), msg: Msg::Pat(b[i as usize], 5) }
    }));
    let d = if th { 3u32 } else { 2 };
    v.push(Space::new("ext-key-routes", "signing keys of both forms through all sequences of 12 conversions (quick: 2, thorough: 3 steps), signing after each", 8 * crate::containers::SIGNER_STEPS.pow(d), move |i| {
        let (mut j, n) = (i / 8, crate::containers::SIGNER_STEPS);
        let steps = (0..d)
            .map(|_| {
                let s = (j % n) as u8;
                j /= n;
                s
            })
            .collect();
        Case::PrehashRoute { key: key(237 + i % 4, i & 4 != 0).to_vec(), steps, msg: Msg::Pat(32 + (i % 3) as usize, 6) }
    }));
    v.push(Space::new("ext-tampered", "extended signature with one bit of its signature part flipped, verified whole", 912, |i| {
        let m = Msg::Pat(32, 3);
        let (pk, mut s) = honest(233, false, &m);
        s[(i / 8) as usize] ^= 1 << (i % 8);
        s.extend_from_slice(&pk);
        Case::Verify { pk, sig: s, msg: m, class: false }
    }));
    v.push(Space::new("ext-wrong-key", "extended signature verified under another key", 64, |i| {
        let m = Msg::Pat(32, 4);
        let (pk, mut s) = honest(234 + i / 8, i % 2 == 0, &m);
        s.extend_from_slice(&pk);
        let (other, _) = honest(234 + i % 8, i / 8 % 2 == 0, &m);
        Case::Verify { pk: other, sig: s, msg: m, class: false }
    }));
    v
}

// ------------------------------------------------------------------ C15

fn history_ops() -> Vec<Op> {
    vec![
        Op::Derive(0),
        Op::Derive(1),
        Op::Derive(3),
        Op::DeriveSeed(3),
        Op::DeriveRaw(0),
        Op::Point(5),
        Op::Sign(0, 3),
        Op::Sign(0, 4),
        Op::Sign(1, 3),
        Op::Sign(3, 3),
        Op::Sign(5, 3),
        Op::SignSeed(3, 3),
        Op::SignNonce(0, 1, 3),
        Op::SignNonce(0, 2, 3),
        Op::Verify(0, 0, 3, 3),
        Op::Verify(1, 0, 3, 3),
        Op::Verify(0, 0, 4, 3),
        Op::VerifyErr(3, 3, 3, 3),
        Op::VerifyFlip(0, 3, 8),
        Op::VerifyBad(0, 3, 1),
        Op::VerifyBad(0, 3, 3),
        Op::VerifyBad(0, 3, 6),
        Op::VerifyBad(0, 3, 7),
        Op::VerifyBad(0, 3, 9),
        Op::Prehash(2, 3),
        Op::Json(3),
        Op::BadJson(2),
        Op::BadHex,
        Op::BadCalls,
        Op::Gen,
        Op::Random(4),
        Op::Expand(3),
    ]
}
fn c15(th: bool) -> Vec<Space> {
    let mut v = vec![];
    let ops = history_ops();
    let n = ops.len() as u64;
    let depth = if th { 4u32 } else { 3 };
    {
        let ops = ops.clone();
        v.push(Space::new("his-sequences", "all call sequences over the alphabet to the given depth", n.pow(depth), move |i| {
            let mut j = i;
            Case::History(
                (0..depth)
                    .map(|_| {
                        let o = ops[(j % n) as usize];
                        j /= n;
                        o
                    })
                    .collect(),
            )
        }));
    }
    v.push(Space::new("his-key-pairs", "sign/derive/verify with key a, then with key b, then with a: all ordered pairs of related keys", 12 * 12 * 3, |i| {
        let (a, b) = ((i / 3 / 12) as u8, (i / 3 % 12) as u8);
        Case::History(match i % 3 {
            0 => vec![Op::Derive(a), Op::Sign(b, 3), Op::Derive(b), Op::Sign(a, 3), Op::Prehash(b, 4)],
            1 => vec![Op::Sign(a, 3), Op::Verify(b, b, 3, 3), Op::Verify(b, a, 3, 3), Op::Sign(b, 3)],
            _ => vec![Op::SignNonce(a, b, 3), Op::SignNonce(b, a, 3), Op::Json(a), Op::Json(b), Op::Random(a)],
        })
    }));
    v.push(Space::new("his-message-pairs", "all ordered pairs of related messages under one key of each form", 8 * 8 * 2, |i| {
        let (a, b, k) = ((i / 16) as u8, (i / 2 % 8) as u8, if i % 2 == 0 { 0 } else { 3 });
        Case::History(vec![Op::Sign(k, a), Op::Sign(k, b), Op::Verify(k, k, b, a), Op::Verify(k, k, a, a), Op::Sign(k, a)])
    }));
    v.push(Space::new("his-working-set", "n different keys in turn, then the first again, for n up to 64; messages likewise", if th { 128 } else { 64 }, |i| {
        let m = (i / 2 + 2).min(60) as u8;
        let mut h = vec![];
        for k in 0..m {
            h.push(if i % 2 == 0 { Op::Sign(k, 3) } else { Op::Verify(k, k, 3, 3) });
        }
        h.push(Op::Sign(0, 3));
        h.push(Op::Derive(1));
        h.push(Op::Verify(1, 0, 3, 3));
        Case::History(h)
    }));
    v.push(Space::new("his-large-working-set", "n different (key, message) pairs signed or verified in turn, then the first ones again, n around powers of two", if th { 48 } else { 32 }, |i| {
        let n = (64u32 << (i / 8)) + [0, 1, 2, 37][(i % 8 / 2) as usize];
        let mut h = vec![];
        for j in (0..n).chain(0..3) {
            let (k, m) = ((j % 251) as u8, (j / 251 + 3) as u8);
            h.push(if i % 2 == 0 { Op::Sign(k, m) } else { Op::Verify(k, k, m, m) });
        }
        h.push(Op::Verify(1, 0, 3, 3));
        h.push(Op::Derive(2));
        Case::History(h)
    }));
    v.push(Space::new("his-argument-pairs", "call, the same call with one argument changed so that a lossy key (prefix, suffix, length, sum, xor) cannot tell, and both again; every argument of every call, every byte position", collisions(th).len() as u64, {
        let c = collisions(th);
        move |i| Case::Calls(c[i as usize].clone())
    }));
    v.push(Space::new("his-same-memory", "the same sequences with every call's arguments in the same memory, each in a fresh process", collisions(th).len() as u64, {
        let c = collisions(th);
        move |i| Case::SameMemory(c[i as usize].clone())
    }));
    {
        use crate::embed::{OUTERS, PLACES};
        let ops = ops.clone();
        let ks: Vec<u8> = if th { (0..12).collect() } else { vec![0, 3, 5] };
        let nk = ks.len() as u64;
        v.push(Space::new("his-nested", "every call of the alphabet made from the caller's random source, serializer or deserializer while the library is in it, on the same or another thread; or after that code failed or unwound", OUTERS * PLACES * n * nk, move |i| Case::Nested {
            place: (i % PLACES) as u8,
            outer: (i / PLACES % OUTERS) as u8,
            key: ks[(i / PLACES / OUTERS % nk) as usize],
            inner: ops[(i / PLACES / OUTERS / nk) as usize],
        }));
    }
    {
        use crate::embed::PLACED;
        let mut at = vec![];
        for a in 0..8 {
            for b in 0..8 {
                for c in [0, 1, 4, 7] {
                    at.push([a, b, c]);
                }
            }
        }
        for a in 8..64 {
            at.extend([[a, 0, 0], [0, a, 0], [0, 0, a]]);
        }
        let lens: Vec<u32> = if th { (0..300).step_by(7).chain([4096, 5000, 8191, 65536]).collect() } else { vec![0, 1, 8, 33, 136, 300, 5000] };
        let (na, nl) = (at.len() as u64, lens.len() as u64);
        v.push(Space::new("his-placement", "arguments of every call at every distance from a 64-byte boundary, in combinations to 8", PLACED * na * nl * 2, move |i| Case::Placed {
            what: (i % PLACED) as u8,
            key: if i / PLACED % 2 == 0 { 0 } else { 3 },
            at: at[(i / PLACED / 2 % na) as usize],
            len: lens[(i / PLACED / 2 / na) as usize],
        }));
        let mut o = vec![];
        let q = if th { 1 } else { 4 };
        for w in 0..3u8 {
            let top = if w == 2 { 228u16 } else { 114 };
            let cut: Vec<u16> = (0..=top).filter(|x| x % q == 0 || [0, 1, 56].contains(&(x % 57))).collect();
            for &a in &cut {
                for &b in &cut {
                    if a <= b {
                        o.push(Case::Overlap { what: w, key: if (a + b) % 2 == 0 { 0 } else { 3 }, from: a, to: b });
                    }
                }
            }
        }
        v.push(Space::list("his-shared-memory", "key, nonce, signature and message overlapping in one piece of memory, the message any part of it", o));
    }
    {
        let ops = ops.clone();
        v.push(Space::new("his-run-then", "in a fresh process: call A 40 times, then B, then A; all ordered pairs of the alphabet", n * n, move |i| {
            let (a, b) = (ops[(i / n) as usize], ops[(i % n) as usize]);
            let mut h = vec![a; 40];
            h.push(b);
            h.push(a);
            Case::Fresh(h)
        }));
    }
    {
        let a = vec![
            Op::Derive(0),
            Op::Derive(3),
            Op::Sign(0, 3),
            Op::Sign(3, 4),
            Op::Verify(0, 0, 3, 3),
            Op::Verify(3, 3, 4, 4),
            Op::VerifyErr(0, 3, 3, 3),
            Op::VerifyBad(0, 3, 1),
            Op::VerifyBad(0, 3, 3),
            Op::BadCalls,
        ];
        let d = if th { 5u32 } else { 4 };
        v.push(Space::new("his-fresh-sequences", "all call sequences over a 10-call alphabet, each in a process of its own", 10u64.pow(d), move |i| {
            let mut j = i;
            Case::Fresh(
                (0..d)
                    .map(|_| {
                        let o = a[(j % 10) as usize];
                        j /= 10;
                        o
                    })
                    .collect(),
            )
        }));
    }
    v.push(Space::new("his-long-repetition", "six calls, each more than 2^16 times in one process", 6 * 64, |i| {
        let op = [Op::Derive(3), Op::Derive(0), Op::Sign(0, 3), Op::Sign(3, 3), Op::Verify(0, 0, 3, 3), Op::SignNonce(0, 1, 3)][(i % 6) as usize];
        Case::Repeat { op, n: 1030 }
    }));
    v.push(Space::new("his-repetition", "one call repeated many times", n.min(28), {
        let ops = ops.clone();
        move |i| Case::History(vec![ops[i as usize]; if th { 5000 } else { 600 }])
    }));
    // schedules of whole calls: 2 threads x 3 calls, 3 threads x 2 calls, all orders
    let progs: Vec<Vec<Vec<Op>>> = {
        let t = |a: &[Op]| a.to_vec();
        vec![
            vec![t(&[Op::Derive(0), Op::Sign(0, 3), Op::Verify(0, 0, 3, 3)]), t(&[Op::Derive(1), Op::Sign(1, 3), Op::Verify(1, 1, 3, 3)])],
            vec![t(&[Op::Sign(3, 3), Op::Sign(3, 4), Op::Verify(3, 3, 4, 3)]), t(&[Op::Sign(5, 3), Op::Sign(3, 3), Op::Verify(5, 5, 3, 3)])],
            vec![t(&[Op::SignNonce(0, 1, 3), Op::Derive(3), Op::Json(3)]), t(&[Op::SignNonce(0, 2, 3), Op::Derive(0), Op::Json(0)])],
            vec![t(&[Op::VerifyBad(0, 3, 1), Op::BadHex, Op::Sign(0, 3)]), t(&[Op::Verify(0, 0, 3, 3), Op::BadJson(0), Op::Prehash(1, 3)])],
            vec![t(&[Op::Derive(0), Op::Sign(0, 3)]), t(&[Op::Derive(1), Op::Sign(1, 3)]), t(&[Op::Derive(3), Op::Verify(0, 0, 3, 3)])],
            vec![t(&[Op::Sign(0, 3), Op::Verify(0, 0, 3, 3)]), t(&[Op::Sign(3, 3), Op::Verify(3, 0, 3, 3)]), t(&[Op::Gen, Op::Random(1)])],
        ]
    };
    let mut sched = vec![];
    for p in &progs {
        let lens: Vec<usize> = p.iter().map(|x| x.len()).collect();
        let mut out = vec![];
        orders(&mut lens.clone(), &mut vec![], &mut out);
        for o in out {
            sched.push(Case::Interleave { prog: p.clone(), order: o });
        }
    }
    v.push(Space::list("sch-call-interleavings", "every interleaving of the calls of 2 x 3 and 3 x 2 thread programs", sched));
    v
}
/// variants of a byte string, each different from it, that keep its length and agree with it in
/// all but one or two places; `sum` and `xor` of the bytes are kept by some
fn variants(b: &[u8], fix_top: bool, stride: usize) -> Vec<Vec<u8>> {
    let n = b.len();
    let mut v: Vec<Vec<u8>> = vec![];
    for p in (0..n).step_by(stride) {
        let mut a = b.to_vec();
        a[p] ^= 1 << (p % 7);
        v.push(a);
        if p + 1 < n {
            let mut a = b.to_vec();
            a.swap(p, p + 1);
            v.push(a);
            let mut a = b.to_vec();
            a[p] = a[p].wrapping_add(4);
            a[p + 1] = a[p + 1].wrapping_sub(4);
            v.push(a);
            let mut a = b.to_vec();
            a[p] ^= 8;
            a[(p + n / 2) % n] ^= 8;
            v.push(a);
        }
    }
    if n > 0 {
        for bit in 0..8 {
            let mut a = b.to_vec();
            a[n - 1] ^= 1 << bit;
            v.push(a);
            let mut a = b.to_vec();
            a[n / 2] ^= 1 << bit;
            v.push(a);
        }
        for k in [1usize, 4, 8, 28] {
            let mut a = b.to_vec();
            a.rotate_left(k % n);
            v.push(a);
        }
        v.push(b.iter().rev().copied().collect());
        for k in [8usize, 16, 32] {
            if k < n {
                // same prefix, another rest; same rest, another prefix
                v.push([&b[..k], &stream(k as u64, n - k)].concat());
                v.push([&stream(k as u64, k)[..], &b[k..]].concat());
            }
        }
        v.push(stream(99, n));
    }
    if fix_top {
        for a in v.iter_mut() {
            a[n - 1] = (a[n - 1] & 0x7f) | (b[n - 1] & 0x80);
        }
    }
    v.retain(|a| a != b);
    v
}
fn collisions(th: bool) -> Vec<Vec<crate::history::Call>> {
    use crate::history::Call as C;
    let mut v: Vec<Vec<C>> = vec![];
    let mut add = |a: C, b: C| v.push(vec![a.clone(), b.clone(), a, b.clone(), b]);
    let m = stream(7, 32);
    for raw in [false, true] {
        let k = key(910, raw).to_vec();
        for o in variants(&k, true, 1) {
            add(C::Derive(k.clone()), C::Derive(o.clone()));
            add(C::DeriveRaw(k.clone()), C::DeriveRaw(o.clone()));
            add(C::Container(k.clone()), C::Container(o.clone()));
            add(C::Text(k.clone()), C::Text(o.clone()));
            add(C::Sign(k.clone(), m.clone()), C::Sign(o.clone(), m.clone()));
            add(C::Prehash(k.clone(), m.clone()), C::Prehash(o.clone(), m.clone()));
            add(C::SignNonce(k.clone(), m_key(), m.clone()), C::SignNonce(o.clone(), m_key(), m.clone()));
            add(C::SignNonce(m_key(), k.clone(), m.clone()), C::SignNonce(m_key(), o.clone(), m.clone()));
            // what one call computes for a key must not leak into another kind of call
            add(C::Derive(k.clone()), C::Sign(o.clone(), m.clone()));
            add(C::Sign(k.clone(), m.clone()), C::Derive(o.clone()));
            add(C::Sign(k.clone(), m.clone()), C::SignNonce(o.clone(), k.clone(), m.clone()));
            add(C::SignNonce(k.clone(), o.clone(), m.clone()), C::Sign(k.clone(), m.clone()));
        }
    }
    let lens: &[usize] = if th { &[1, 2, 8, 32, 57, 64, 136, 200, 1024, 5000, 70_000] } else { &[1, 2, 32, 64, 200, 1024, 5000] };
    for &n in lens {
        let b = stream(911, n);
        let mut vs = variants(&b, false, (n / if th { 256 } else { 64 }).max(1));
        vs.push([&b[..], &[0]].concat());
        vs.push(b[..n - 1].to_vec());
        vs.push(b[1..].to_vec());
        for o in vs {
            for raw in [false, true] {
                let k = key(912, raw).to_vec();
                let pk = r::derive_public(&arr57(&k)).to_vec();
                let s = r::sign(&arr57(&k), &b).to_vec();
                add(C::Sign(k.clone(), b.clone()), C::Sign(k.clone(), o.clone()));
                add(C::Verify(pk.clone(), s.clone(), b.clone()), C::Verify(pk.clone(), s.clone(), o.clone()));
                if raw {
                    add(C::SignNonce(k.clone(), m_key(), b.clone()), C::SignNonce(k.clone(), m_key(), o.clone()));
                    add(C::Prehash(k.clone(), b.clone()), C::Prehash(k.clone(), o.clone()));
                } else {
                    add(C::VerifyErr(pk.clone(), s.clone(), o.clone()), C::VerifyErr(pk, s, b.clone()));
                }
            }
        }
    }
    for raw in [false, true] {
        let k = key(913, raw);
        let pk = r::derive_public(&k).to_vec();
        let s = r::sign(&k, &m).to_vec();
        let good = C::Verify(pk.clone(), s.clone(), m.clone());
        let mut bad = vec![];
        for o in variants(&s, false, 1) {
            bad.push((pk.clone(), o, m.clone()));
        }
        for o in variants(&pk, false, 1) {
            bad.push((o, s.clone(), m.clone()));
        }
        for t in 0..8 {
            let k2 = key(920 + t, t % 2 == 0);
            let (p2, m2) = (r::derive_public(&k2).to_vec(), stream(930 + t, 32));
            let s2 = r::sign(&k2, &m2).to_vec();
            bad.push((p2.clone(), s.clone(), m.clone()));
            bad.push((pk.clone(), s2.clone(), m.clone()));
            bad.push((pk.clone(), s.clone(), m2.clone()));
            bad.push((p2.clone(), s2.clone(), m.clone()));
            bad.push((p2.clone(), s2.clone(), m2.clone()));
            // same R with another S, same S with another R
            bad.push((pk.clone(), [&s[..57], &s2[57..]].concat(), m.clone()));
            bad.push((pk.clone(), [&s2[..57], &s[57..]].concat(), m.clone()));
        }
        for (p, s, m) in bad {
            add(good.clone(), C::Verify(p.clone(), s.clone(), m.clone()));
            add(C::VerifyErr(p, s, m), good.clone());
        }
    }
    v
}
fn m_key() -> Vec<u8> {
    key(914, false).to_vec()
}
fn orders(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
    if left.iter().all(|&x| x == 0) {
        out.push(cur.clone());
        return;
    }
    for t in 0..left.len() {
        if left[t] > 0 {
            left[t] -= 1;
            cur.push(t as u8);
            orders(left, cur, out);
            cur.pop();
            left[t] += 1;
        }
    }
}

// ------------------------------------------------------------------ C16

fn c16(th: bool) -> Vec<Space> {
    let mut v = vec![];
    for mode in [0u8, 1] {
        for raw in [false, true] {
            let mut s = Space::new(&format!("rng-script-bytes-{}-{}", mode, raw as u8), "scripts differing in one byte, every position x every other value: pairwise distinct keys", 57 * 255 + 1, move |i| {
                let mut d = stream(800 + raw as u64, 64);
                d[56] = d[56] & 0x7f | (raw as u8) << 7;
                if i > 0 {
                    let j = i - 1;
                    d[(j / 255) as usize] ^= (j % 255) as u8 + 1;
                }
                Case::Rng { script: d, mode }
            });
            s.unique = true;
            v.push(s);
            let mut s = Space::new(&format!("rng-script-bits-{}-{:02x}", mode, if raw { 255 } else { 0 }), "scripts with one or two bits set (or clear, in all-ones): pairwise distinct keys", if th { 456 * 457 / 2 } else { 20_000 }, move |i| {
                let (mut a, mut left) = (0u64, if th { i } else { i * 5 });
                while left >= 456 - a {
                    left -= 456 - a;
                    a += 1;
                }
                let b = a + left;
                let mut d = vec![0u8; 64];
                d[a as usize / 8] |= 1 << (a % 8);
                d[b as usize / 8] |= 1 << (b % 8);
                if raw {
                    d.iter_mut().for_each(|x| *x = !*x);
                }
                Case::Rng { script: d, mode }
            });
            s.unique = true;
            v.push(s);
        }
    }
    v.push(Space::new("rng-os-keys", "keys from ed448_generate_key: distinct, every byte takes every value, every pair of bits every combination", if th { 64 } else { 16 }, |_| Case::OsKeys { n: 20_000 }));
    v.push(Space::new("rng-os-many", "keys from ed448_generate_key in one sitting, pairwise distinct", 1, move |_| Case::OsDistinct { how: 0, n: if th { 30_000_000 } else { 6_000_000 } }));
    v.push(Space::new("rng-os-threads", "2 to 64 fresh threads making keys at once, pairwise distinct", 63 * if th { 8 } else { 1 }, |i| Case::OsDistinct { how: 1, n: 2 + (i % 63) as usize }));
    v.push(Space::new("rng-os-forked", "1 to 12 processes forked from one that has made keys, and that one, pairwise distinct", 12, |i| Case::OsDistinct { how: 2, n: 1 + i as usize }));
    v.push(Space::new("rng-os-processes", "new processes, pairwise distinct keys", if th { 16 } else { 4 }, |_| Case::OsDistinct { how: 3, n: 24 }));
    v.push(Space::new("rng-fresh-keys-work", "freshly generated keys sign and verify", if th { 20_000 } else { 2_000 }, |_| Case::History(vec![Op::Gen])));
    v
}

// ------------------------------------------------------------------ C17

fn c17(th: bool) -> Vec<Space> {
    let mut v: Vec<Space> = vec![];
    let mut add = |name: &str, bound: &str, n: u64, g: Box<dyn Fn(u64) -> Case + Send + Sync>| {
        let mut s = Space::new(name, bound, n, g);
        s.unique = true;
        v.push(s);
    };
    for raw in [false, true] {
        let f = if raw { "raw" } else { "seed" };
        add(&format!("non-short-messages-{}", f), "all messages of 0, 1 and 2 bytes", if th { SHORT } else { 257 + 16384 }, Box::new(move |i| Case::Nonce { key: key(300, raw).to_vec(), nonce: vec![], msg: short_msg(if th || i < 257 { i } else { 257 + (i - 257) * 4 + 1 }) }));
        add(&format!("non-message-lengths-{}", f), "zero messages of every length", if th { 70_000 } else { 17_000 }, Box::new(move |i| Case::Nonce { key: key(301, raw).to_vec(), nonce: vec![], msg: Msg::Fill(i as usize, 0) }));
        add(&format!("non-message-bytes-{}", f), "one byte changed, every position of a 300-byte message x values", 300 * if th { 255 } else { 64 }, Box::new(move |i| {
            let per = if th { 255 } else { 64 };
            let mut m = stream(40, 300);
            m[(i / per) as usize] ^= (i % per) as u8 * if th { 1 } else { 3 } + 1;
            Case::Nonce { key: key(302, raw).to_vec(), nonce: vec![], msg: Msg::Lit(m) }
        }));
        add(&format!("non-long-message-bits-{}", f), "one bit changed in a 5000-byte message, every byte", 5000, Box::new(move |i| {
            let mut m = stream(41, 5000);
            m[i as usize] ^= 1 << (i % 8);
            Case::Nonce { key: key(303, raw).to_vec(), nonce: vec![], msg: Msg::Lit(m) }
        }));
        let st = structured(&key(311, raw), th);
        add(&format!("non-structured-messages-{}", f), "structured messages, pairwise different", st.len() as u64, Box::new(move |i| Case::Nonce { key: key(311, raw).to_vec(), nonce: vec![], msg: Msg::Lit(st[i as usize].clone()) }));
        // key bits; of a raw key, those that clamping fixes do not make another key
        add(&format!("non-key-bytes-{}", f), "one key byte changed, every position x every effective value", 56 * 255, Box::new(move |i| {
            let mut k = key(304, raw);
            let (p, x) = ((i / 255) as usize, (i % 255) as u8 + 1);
            if raw && p == 0 {
                // six effective bits: a bijection of 0..255 onto (byte 0, byte 1) changes
                k[0] ^= (x & 0x3f) << 2;
                k[20] ^= 0x40 | x >> 6;
                k[21] ^= 0xa0;
            } else if raw && p == 55 {
                k[55] ^= x & 0x7f;
                k[22] ^= 0x40 | x >> 7;
                k[23] ^= 0xa0;
            } else {
                k[p] ^= x;
            }
            Case::Nonce { key: k.to_vec(), nonce: vec![], msg: Msg::Pat(16, 3) }
        }));
    }
    let b = big_lens(if th { 25 } else { 23 });
    for e in [false, true] {
        let b = b.clone();
        add(&format!("non-big-messages-{}", if e { "explicit" } else { "sign" }), "long messages with one byte changed, first, last and power-of-two positions from either end", b.len() as u64 * 8, Box::new(move |i| {
            let n = b[(i / 8) as usize];
            let p = [0, n - 1, n / 2, n - 2, n / 4, n - n / 4, n - n / 8][((i % 8).max(1) - 1) as usize];
            let msg = Msg::PatX(n, 43, p, if i % 8 == 0 { 0 } else { 1 << (i % 8) });
            Case::Nonce { key: key(309, e || i / 8 % 2 == 1).to_vec(), nonce: if e { key(310, false).to_vec() } else { vec![] }, msg }
        }));
    }
    add("non-explicit-nonce", "sign_with_secret_and_nonce: one nonce byte changed, every position x every value", 57 * 255, Box::new(|i| {
        let mut n = key(305, false);
        n[(i / 255) as usize] ^= (i % 255) as u8 + 1;
        Case::Nonce { key: key(306, true).to_vec(), nonce: n.to_vec(), msg: Msg::Pat(16, 4) }
    }));
    let st = structured(&key(306, true), th);
    add("non-explicit-structured", "sign_with_secret_and_nonce: structured messages, pairwise different", st.len() as u64, Box::new(move |i| Case::Nonce { key: key(306, true).to_vec(), nonce: key(312, false).to_vec(), msg: Msg::Lit(st[i as usize].clone()) }));
    add("non-explicit-messages", "sign_with_secret_and_nonce: messages of every length", if th { 70_000 } else { 17_000 }, Box::new(|i| Case::Nonce { key: key(306, true).to_vec(), nonce: key(307, false).to_vec(), msg: Msg::Fill(i as usize, 0xff) }));
    v.push(Space::new("non-values", "the nonce point itself is the prescribed one (fixed keys x lengths)", 1200, |i| Case::SignExact { key: key(308 + i % 4, i % 2 == 1).to_vec(), msg: Msg::Pat((i / 4) as usize, 8) }));
    v
}
