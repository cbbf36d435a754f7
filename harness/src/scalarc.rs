//! Scalar arithmetic mod q, against the reference integers.
use crate::case::{n_of_w, w_of_n};
use crate::engine::{total, viol, Res};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::verif_hooks::scalar as sc;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    Add,
    Sub,
    Mul,
    Halve,
    Encode,
}
fn le(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn run(op: SOp, a: &[u32; 14], b: &[u32; 14]) -> Res {
    let (x, y) = (n_of_w(a), n_of_w(b));
    let (got, want): ([u32; 14], r::N) = match op {
        SOp::Add => (total("scalar add", || sc::add(a, b))?, r::qadd(&x, &y)),
        SOp::Sub => (total("scalar sub", || sc::sub(a, b))?, r::qsub(&x, &y)),
        SOp::Mul => (total("scalar mul", || sc::mul(a, b))?, r::qmul(&x, &y)),
        SOp::Halve => (total("scalar halve", || sc::halve(*a))?, r::qmul(&x, &r::q_half())),
        SOp::Encode => {
            let e = total("scalar encode", || sc::encode(a))?;
            if e != r::to_le57(&x) {
                return viol(format!("scalar encodes as {}", hex(&e)));
            }
            return Ok(h64(&[&e]));
        }
    };
    if got != w_of_n(&want) {
        return viol(format!(
            "scalar {:?}: got {:08x?} instead of {:08x?}",
            op,
            got,
            w_of_n(&want)
        ));
    }
    Ok(h64(&[&[op as u8], &le(&got)]))
}
pub fn decode_long(bytes: &[u8]) -> Res {
    let got = total("decode_long", || sc::decode_long(bytes))?;
    let mut v = bytes.to_vec();
    while v.len() % 8 != 0 {
        v.push(0)
    }
    let want = r::q_reduce(&r::from_le(&v));
    if got != w_of_n(&want) {
        return viol(format!("{} bytes reduce to {:08x?}", bytes.len(), got));
    }
    Ok(h64(&[&le(&got)]))
}
