//! Group layer: scalar multiplications and the group law on the crate's own points, against the
//! reference group. A library point whose encoding is [a]B is modelled by a mod q.
use crate::case::*;
#[allow(unused_imports)]
use crate::engine::{total, viol, Fail, Res};
use crate::refm as r;
use crate::util::*;
#[cfg(feature = "pt_methods")]
use libgoldilocks::goldilocks as g;

#[cfg(feature = "pt_methods")]
fn expect(what: &str, got: [u8; 57], want: [u8; 57]) -> Result<(), Fail> {
    if got != want {
        return viol(format!("{}: got {} instead of {}", what, hex(&got), hex(&want)));
    }
    Ok(())
}

/// every scalar the library sees is reduced; a in the raw-key range gives the point [a]B
#[cfg(feature = "pt_methods")]
fn point_key(a: &r::N) -> Result<[u8; 57], Fail> {
    raw_key_of(a).ok_or(Fail::Engine("scalar outside the clamped range".into()))
}

#[cfg(feature = "pt_methods")]
pub fn var_mul(a: &r::N, s: &[u32; 14]) -> Res {
    let k = point_key(a)?;
    let got = total("point_scalar_mul", || {
        g::point_by_secret(&k).point_scalar_mul(s).eddsa_like_encode()
    })?;
    let want = r::base_mul(&r::qmul(&r::q_reduce(a), &n_of_w(s))).encode();
    expect("s*P", got, want)?;
    Ok(h64(&[&got]))
}

#[cfg(feature = "pt_methods")]
pub fn dbl_mul(a: &r::N, s1: &[u32; 14], s2: &[u32; 14]) -> Res {
    let k = point_key(a)?;
    let got = total("point_double_scalamul_non_secret", || {
        g::point_by_secret(&k)
            .point_double_scalamul_non_secret(s1, s2)
            .eddsa_like_encode()
    })?;
    let four_s1 = r::qmul(&r::small(4), &n_of_w(s1));
    let e = r::qadd(&four_s1, &r::qmul(&r::q_reduce(a), &n_of_w(s2)));
    expect("s1*B + s2*P", got, r::base_mul(&e).encode())?;
    Ok(h64(&[&got]))
}

pub const WALK_OPS: u64 = 10;
/// ops: 0 dbl, 1 dbl dbl (first without t), 2 +P0, 3 -P0, 4 through projected Niels form,
/// 5 +self, 6 -self, 7 +P1, 8 -P1, 9 variable-base multiplication by 3
#[cfg(feature = "pt_methods")]
pub fn walk(start: &r::N, ops: &[u8]) -> Res {
    let k = point_key(start)?;
    let k1 = key(77, true);
    let a0 = r::q_reduce(start);
    let a1 = r::scalar_of(&k1);
    let mut p = total("point_by_secret", || g::point_by_secret(&k))?;
    let p0 = p.to_projected_niels();
    let p1 = total("point_by_secret", || g::point_by_secret(&k1).to_projected_niels())?;
    let mut m = a0;
    let mut tr = vec![];
    for &o in ops {
        let (np, nm) = total("point operation", || {
            let mut p = p.clone();
            let me = p.to_projected_niels();
            let m = match o {
                0 => {
                    p.double_internal(false);
                    r::qadd(&m, &m)
                }
                1 => {
                    p.double_internal(true);
                    p.double_internal(false);
                    r::qmul(&m, &r::small(4))
                }
                2 => {
                    p.add_projected_niels_to_extended(&p0, false);
                    r::qadd(&m, &a0)
                }
                3 => {
                    p.sub_projected_niels_from_extended_point(&p0, false);
                    r::qsub(&m, &a0)
                }
                4 => {
                    p = me.to_extended_point();
                    m
                }
                5 => {
                    p.add_projected_niels_to_extended(&me, false);
                    r::qadd(&m, &m)
                }
                6 => {
                    p.sub_projected_niels_from_extended_point(&me, false);
                    r::ZERO
                }
                7 => {
                    p.add_projected_niels_to_extended(&p1, false);
                    r::qadd(&m, &a1)
                }
                8 => {
                    p.sub_projected_niels_from_extended_point(&p1, false);
                    r::qsub(&m, &a1)
                }
                _ => {
                    let three = w_of_n(&r::small(3));
                    p = p.point_scalar_mul(&three);
                    r::qmul(&m, &r::small(3))
                }
            };
            (p, m)
        })?;
        p = np;
        m = nm;
        let got = total("eddsa_like_encode", || p.eddsa_like_encode())?;
        expect(&format!("after {:?} (at op {})", ops, o), got, r::base_mul(&m).encode())?;
        if !total("is_on_curve", || p.is_on_curve())? {
            return viol("result of a group operation is reported off the curve");
        }
        tr.extend_from_slice(&got);
    }
    // equality of points is equality of the values they stand for
    let q = total("point_by_secret", || g::point_by_secret(&k))?;
    let eq = total("mod_equal", || p.mod_equal(&q))?;
    if eq != (m == a0) && m != r::ZERO {
        return viol(format!("mod_equal says {} after {:?}", eq, ops));
    }
    Ok(h64(&[&tr]))
}

#[cfg(feature = "int_point")]
mod hooked {
    use super::*;
    use libgoldilocks::verif_hooks::extended_point as ep;

    pub fn fix_mul(s: &[u32; 14]) -> Res {
        let got = total("precomputed_scalar_mul", || {
            ep::precomputed_scalar_mul(*s).eddsa_like_encode()
        })?;
        let want = r::base_mul(&r::qmul(&r::small(4), &n_of_w(s))).encode();
        if got != want {
            return viol(format!("fixed-base s*B: got {} instead of {}", hex(&got), hex(&want)));
        }
        Ok(h64(&[&got]))
    }

    /// signed-window recoding: sum of addend*2^power is the scalar, every addend odd and in range
    pub fn recode(s: &[u32; 14], bits: u8) -> Res {
        let bits = bits as usize;
        let len = if bits == 3 { 115 } else { 77 };
        let (ctl, n) = total("recode_wnaf", || {
            let mut c: Vec<ep::SmvtControl> = (0..len).map(|_| ep::SmvtControl::new()).collect();
            let n = ep::recode_wnaf(&mut c, s, bits);
            (c, n)
        })?;
        let mut acc = r::ZERO;
        let mut last = i64::MAX;
        let mut tr = vec![];
        let mut ended = false;
        let mut used = 0u32;
        for c in &ctl {
            let (p, a) = c.verif_parts();
            if p < 0 {
                ended = true;
                break;
            }
            used += 1;
            if p >= last {
                return viol(format!("recoding powers not decreasing: {} after {}", p, last));
            }
            last = p;
            if a % 2 == 0 || a.abs() >= 2 << bits {
                return viol(format!("recoding digit {} cannot be looked up", a));
            }
            if used == 1 && a < 0 {
                return viol("leading recoding digit is negative");
            }
            let mut t = r::small(a.unsigned_abs());
            for _ in 0..p {
                t = r::qadd(&t, &t);
            }
            acc = if a > 0 { r::qadd(&acc, &t) } else { r::qsub(&acc, &t) };
            tr.extend_from_slice(&p.to_le_bytes());
            tr.extend_from_slice(&a.to_le_bytes());
        }
        if !ended || n != used {
            return viol(format!("recoding is not terminated ({} digits, reported {})", used, n));
        }
        if acc != n_of_w(s) {
            return viol("signed-window digits do not add up to the scalar");
        }
        Ok(h64(&[&tr]))
    }

    pub fn codec(enc: &[u8]) -> Res {
        let want = if enc.len() == 57 { r::decode(enc) } else { None };
        let got = total("eddsa_like_decode", || {
            ep::eddsa_like_decode(enc).map(|p| (p.eddsa_like_encode(), p.is_on_curve()))
        })?;
        match (&want, &got) {
            (None, Err(_)) => Ok(h64(&[enc, b"no"])),
            (Some(_), Err(e)) => viol(format!("encoding of a curve point refused: {:?}", e)),
            (None, Ok(_)) => viol("bytes that encode no curve point were decoded"),
            (Some(p), Ok((e, on))) => {
                let w = p.dbl().dbl().mul(&r::q_quarter()).encode();
                if *e != w || !on {
                    return viol(format!(
                        "decoded to {} (on curve: {}), expected {}",
                        hex(e),
                        on,
                        hex(&w)
                    ));
                }
                Ok(h64(&[enc, e]))
            }
        }
    }
}
#[cfg(feature = "int_point")]
pub use hooked::*;
