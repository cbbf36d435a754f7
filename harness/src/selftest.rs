//! Replays the committed OpenSSL / Python known answers against the reference model.
use crate::refm as r;
use crate::util::*;

pub fn run() -> Result<usize, String> {
    let kat = include_str!("../kat.txt");
    let mut n = 0;
    for (ln, l) in kat.lines().enumerate() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let bad = |what: &str| Err(format!("reference model: KAT line {}: {}", ln + 1, what));
        match f[0] {
            "seed" => {
                let (k, m) = (arr57(&unhex(f[1])), unhex(f[3]));
                if r::pub_of_seed(&k).to_vec() != unhex(f[2]) {
                    return bad("pub");
                }
                if r::sign_seed(&k, &m).to_vec() != unhex(f[4]) {
                    return bad("sig");
                }
            }
            "raw" => {
                let (k, m) = (arr57(&unhex(f[1])), unhex(f[3]));
                if r::derive_public(&k).to_vec() != unhex(f[2]) {
                    return bad("pub");
                }
                if r::sign(&k, &m).to_vec() != unhex(f[4]) {
                    return bad("sig");
                }
            }
            "verify" => {
                let w = r::verify(&unhex(f[1]), &unhex(f[2]), &unhex(f[3]));
                if w.accept() != (f[4] == "1") {
                    return bad("verify");
                }
            }
            "mul" => {
                let k = r::n_from_le56(&unhex(f[1]));
                let e = unhex(f[2]);
                if r::base_mul(&k).encode().to_vec() != e || r::base().mul(&k).encode().to_vec() != e {
                    return bad("mul");
                }
            }
            "decode" => {
                let b = unhex(f[1]);
                match r::decode(&b) {
                    None => {
                        if f[2] != "-" {
                            return bad("decode none");
                        }
                    }
                    Some(p) => {
                        if f[2] == "-" || r::to_le57(&p.x).to_vec() != unhex(f[2]) {
                            return bad("decode x");
                        }
                        if !p.on_curve() || p.encode().to_vec() != b {
                            return bad("decode roundtrip");
                        }
                    }
                }
            }
            "modq" => {
                let x = r::from_le(&unhex(f[1]));
                let e = unhex(f[2]);
                if r::to_le57(&r::q_reduce(&x)).to_vec() != e
                    || r::to_le57(&r::q_reduce_slow(&x)).to_vec() != e
                {
                    return bad("modq");
                }
            }
            "modp" => {
                let x = r::from_le(&unhex(f[1]));
                let e = unhex(f[2]);
                if r::to_le57(&r::fp_reduce(&x)).to_vec() != e {
                    return bad("modp");
                }
                let mut w = [0u64; 14];
                for i in 0..14.min(x.len()) {
                    w[i] = x[i];
                }
                if r::fp_reduce14(&w) != r::fp_reduce(&w) {
                    return bad("modp14");
                }
            }
            "shake" => {
                let mut o = [0u8; 300];
                r::shake256(&[&unhex(f[1])], &mut o);
                if o.to_vec() != unhex(f[2]) {
                    return bad("shake");
                }
            }
            _ => return bad("unknown line"),
        }
        n += 1;
    }
    // fast and slow reductions agree on every product of boundary words
    let w = [0u64, 1, 1 << 32, u64::MAX, u64::MAX - 1, 0xffff_ffff_0000_0000];
    for i in 0..7 {
        for j in 0..7 {
            for &a in &w {
                for &b in &w {
                    let mut x = [u64::MAX; 14];
                    x[i] = a;
                    x[7 + j] = b;
                    let mut z = [0u64; 14];
                    z[i] = a;
                    z[7 + j] = b;
                    for v in [x, z] {
                        if r::fp_reduce14(&v) != r::fp_reduce(&v) {
                            return Err("fp_reduce14".into());
                        }
                        if r::q_reduce(&v) != r::q_reduce_slow(&v) {
                            return Err("q_reduce".into());
                        }
                        n += 1;
                    }
                }
            }
        }
    }
    Ok(n)
}
