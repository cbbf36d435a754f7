//! Field arithmetic on 16 x 28-bit limbs, against the reference field.
//! A limb vector stands for sum(limb[i]*2^(28 i)) mod p; only that value is judged.
use crate::engine::{total, viol, Fail, Res};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::verif_hooks::bignumber as b;
use serde::{Deserialize, Serialize};

pub type L = [u32; 16];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    /// y is an unreduced sum
    Sub3,
    /// x is an unreduced sum
    Sub4,
    Mul,
    Square,
    MulD,
    MulNiels,
    MulW,
    Neg,
    CondNeg,
    Select,
    Swap,
    Equal,
    Serialize,
    LowBit,
    Strong,
    Weak,
    Invert,
    Isr,
    Deser,
    ZeroMask,
}

pub fn value(l: &L) -> r::N {
    let mut w = [0u64; 14];
    let mut c: u128 = 0;
    // word by word: collect all limb parts falling at or above each 64-bit word
    let mut acc = [0u128; 9];
    for i in 0..16 {
        let bit = 28 * i;
        let (k, s) = (bit / 64, bit % 64);
        let v = (l[i] as u128) << s;
        acc[k] += v & 0xffff_ffff_ffff_ffff;
        acc[k + 1] += v >> 64;
    }
    for k in 0..9 {
        c += acc[k];
        w[k] = c as u64;
        c >>= 64;
    }
    r::fp_reduce14(&w)
}
/// canonical limbs
pub fn limbs(n: &r::N) -> L {
    let mut o = [0u32; 16];
    for i in 0..16 {
        let bit = 28 * i;
        let (k, s) = (bit / 64, bit % 64);
        let mut v = n[k] >> s;
        if s > 36 && k + 1 < 7 {
            v |= n[k + 1] << (64 - s);
        }
        o[i] = (v & 0xfff_ffff) as u32;
    }
    o
}
fn h(op: FOp, l: &L) -> u64 {
    let mut x = op as u64;
    for v in l.iter() {
        x = (x ^ *v as u64).wrapping_mul(0x9e3779b97f4a7c15);
        x ^= x >> 29;
    }
    x
}
fn bad(op: FOp, x: &L, y: &L, got: &r::N, want: &r::N) -> Res {
    viol(format!(
        "field {:?} of {:08x?} and {:08x?}: {} instead of {}",
        op,
        x,
        y,
        hex(&r::to_le56(got)),
        hex(&r::to_le56(want))
    ))
}
const D: u64 = 39081;

pub fn run(op: FOp, x: &L, y: &L) -> Res {
    let num = |what: &str, f: &dyn Fn() -> L| -> Result<L, Fail> { total(what, f) };
    let vx = || value(x);
    let vy = || value(y);
    let (got, want) = match op {
        FOp::Add => (num("add", &|| b::add(x, y))?, r::fadd(&vx(), &vy())),
        FOp::Sub => (num("sub", &|| b::sub(x, y))?, r::fsub(&vx(), &vy())),
        FOp::Sub3 => (num("sub_x_bias", &|| b::sub_x_bias(x, y, &3))?, r::fsub(&vx(), &vy())),
        FOp::Sub4 => (num("sub_x_bias", &|| b::sub_x_bias(x, y, &4))?, r::fsub(&vx(), &vy())),
        FOp::Mul => (num("mul", &|| b::mul(x, y))?, r::fmul(&vx(), &vy())),
        FOp::Square => (num("square", &|| b::square(x))?, r::fsq(&vx())),
        FOp::MulW => (
            num("mul_w", &|| b::mul_w(x, &(D + 1)))?,
            r::fmul(&vx(), &r::small(D + 1)),
        ),
        FOp::MulD => (
            num("mul_with_signed_curve_constant", &|| {
                b::mul_with_signed_curve_constant(x, &-(D as i64))
            })?,
            r::fneg(&r::fmul(&vx(), &r::small(D))),
        ),
        FOp::MulNiels => (
            num("mul_with_signed_curve_constant", &|| {
                b::mul_with_signed_curve_constant(x, &(-2 * D as i64 - 2))
            })?,
            r::fneg(&r::fmul(&vx(), &r::small(2 * D + 2))),
        ),
        FOp::Neg => (num("neg", &|| b::neg(x))?, r::fneg(&vx())),
        FOp::CondNeg => {
            for f in [
                (b::conditional_negate as fn(&L, &u32) -> L, "conditional_negate"),
                (b::decaf_cond_negate, "decaf_cond_negate"),
            ] {
                for m in [0u32, u32::MAX] {
                    let g = value(&total(f.1, || f.0(x, &m))?);
                    let w = if m == 0 { vx() } else { r::fneg(&vx()) };
                    if g != w {
                        return bad(op, x, y, &g, &w);
                    }
                }
            }
            return Ok(h(op, x));
        }
        FOp::Select => {
            for m in [0u32, u32::MAX] {
                let g = total("constant_time_select", || b::constant_time_select(x, y, &m))?;
                if value(&g) != if m == 0 { vy() } else { vx() } {
                    return viol(format!("constant_time_select with mask {:x}", m));
                }
                let g = total("decaf_const_time_select", || b::decaf_const_time_select(x, y, &m))?;
                if value(&g) != if m == 0 { vx() } else { vy() } {
                    return viol(format!("decaf_const_time_select with mask {:x}", m));
                }
            }
            return Ok(h(op, x));
        }
        FOp::Swap => {
            for m in [0u32, u32::MAX] {
                let g = total("conditional_swap", || {
                    let (mut p, mut q) = (*x, *y);
                    b::conditional_swap(&mut p, &mut q, &m);
                    (p, q)
                })?;
                if g != if m == 0 { (*x, *y) } else { (*y, *x) } {
                    return viol(format!("conditional_swap with mask {:x}", m));
                }
            }
            return Ok(h(op, x));
        }
        FOp::Equal => {
            let g = total("decaf_equal", || b::decaf_equal(x, y))?;
            let w = if vx() == vy() { u32::MAX } else { 0 };
            if g != w {
                return viol(format!(
                    "decaf_equal of {:08x?} and {:08x?} is {:x}, not {:x}",
                    x, y, g, w
                ));
            }
            return Ok(h(op, x) ^ h(op, y).rotate_left(17) ^ g as u64);
        }
        FOp::Serialize => {
            let g = total("dsa_like_serialize", || b::dsa_like_serialize(x))?;
            let w = r::to_le56(&vx());
            if g != w {
                return viol(format!("{:08x?} serialises as {} not {}", x, hex(&g), hex(&w)));
            }
            return Ok(h(op, x));
        }
        FOp::LowBit => {
            let g = total("low_bit", || b::low_bit(x))?;
            let w = if vx()[0] & 1 == 1 { u32::MAX } else { 0 };
            if g != w {
                return viol(format!("low_bit of {:08x?} is {:x}", x, g));
            }
            return Ok(h(op, x));
        }
        FOp::Strong => {
            let g = total("strong_reduce", || b::strong_reduce(*x))?;
            let w = limbs(&vx());
            if g != w {
                return viol(format!("strong_reduce of {:08x?} is {:08x?} not {:08x?}", x, g, w));
            }
            (g, vx())
        }
        FOp::Weak => (num("weak_reduce", &|| b::weak_reduce(*x))?, vx()),
        FOp::Invert => {
            let w = if vx() == r::ZERO { r::ZERO } else { r::finv(&vx()) };
            (num("invert", &|| b::invert(x))?, w)
        }
        FOp::Isr => {
            // inverse square root, judged on squares: result^2 * x == 1
            let sq = r::fsq(&vx());
            let g = value(&total("isr", || b::isr(&limbs(&sq)))?);
            let w = r::fmul(&r::fsq(&g), &sq);
            let ok = if sq == r::ZERO { g == r::ZERO } else { w == r::ONE };
            if !ok {
                return viol(format!("isr of {} gives {}", hex(&r::to_le56(&sq)), hex(&r::to_le56(&g))));
            }
            return Ok(h(op, &limbs(&g)));
        }
        FOp::Deser => {
            // x: 16 limbs below 2^28, packed into 56 bytes
            let mut by = [0u8; 57];
            let mut n = [0u64; 7];
            for i in 0..16 {
                let (k, s) = (28 * i / 64, 28 * i % 64);
                n[k] |= (x[i] as u64) << s;
                if s > 36 {
                    n[k + 1] |= (x[i] as u64) >> (64 - s);
                }
            }
            by[..56].copy_from_slice(&r::to_le56(&n));
            let (g, m) = total("dsa_like_deserialize", || b::dsa_like_deserialize(&by, 0))?;
            let canon = r::lt(&n, &r::P);
            if (m == u32::MAX) != canon || (m != 0 && m != u32::MAX) {
                return viol(format!(
                    "dsa_like_deserialize of {} ({} p) returns mask {:x}",
                    hex(&by),
                    if canon { "below" } else { "not below" },
                    m
                ));
            }
            if canon && value(&g) != n {
                return viol(format!("dsa_like_deserialize of {} gives {:08x?}", hex(&by), g));
            }
            return Ok(h(op, x));
        }
        FOp::ZeroMask => {
            let g = total("is_zero_mask", || b::is_zero_mask(x[0]))?;
            if g != if x[0] == 0 { u32::MAX } else { 0 } {
                return viol(format!("is_zero_mask({:x}) is {:x}", x[0], g));
            }
            return Ok(x[0] as u64);
        }
    };
    let v = value(&got);
    if v != want {
        return bad(op, x, y, &v, &want);
    }
    Ok(h(op, &got))
}

pub const EXPR_OPS: u64 = 9;
/// Register walk (x, y): the compositions the point formulas are made of, including unreduced
/// sums fed to multiplications and biased subtractions. The value is compared after every step.
pub fn expr(x: &L, y: &L, ops: &[u8]) -> Res {
    let (mut x, mut y) = (*x, *y);
    let (mut vx, mut vy) = (value(&x), value(&y));
    let mut acc = 0u64;
    for &o in ops {
        let (nx, ny) = total("field expression", || match o {
            0 => (b::mul(&x, &y), x),
            1 => (b::square(&x), y),
            2 => (b::sub(&x, &y), x),
            3 => (b::add(&x, &y), y),
            4 => (b::mul(&b::add_raw(&x, &y), &b::sub(&x, &y)), x),
            5 => (b::square(&b::add_raw(&x, &y)), y),
            6 => (b::sub_x_bias(&x, &b::add_raw(&x, &y), &3), x),
            7 => (b::sub_x_bias(&b::add_raw(&x, &x), &y, &4), x),
            _ => (b::mul(&b::add_raw(&x, &y), &b::add_raw(&y, &y)), y),
        })?;
        let (wx, wy) = match o {
            0 => (r::fmul(&vx, &vy), vx),
            1 => (r::fsq(&vx), vy),
            2 => (r::fsub(&vx, &vy), vx),
            3 => (r::fadd(&vx, &vy), vy),
            4 => (r::fmul(&r::fadd(&vx, &vy), &r::fsub(&vx, &vy)), vx),
            5 => (r::fsq(&r::fadd(&vx, &vy)), vy),
            6 => (r::fneg(&vy), vx),
            7 => (r::fsub(&r::fadd(&vx, &vx), &vy), vx),
            _ => (r::fmul(&r::fadd(&vx, &vy), &r::fadd(&vy, &vy)), vy),
        };
        x = nx;
        y = ny;
        vx = wx;
        vy = wy;
        if value(&x) != vx || value(&y) != vy {
            return viol(format!("field expression {:?} goes wrong at step {}", ops, o));
        }
        acc = acc.rotate_left(11) ^ h(FOp::Mul, &x);
    }
    Ok(acc)
}
