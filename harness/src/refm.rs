//! Reference model: Ed448 straight from RFC 8032 section 5.2, written for obviousness.
//! It shares no code, no representation and no formulas with the crate under check:
//! untwisted curve x^2+y^2 = 1 - 39081 x^2 y^2, canonical 7x64-bit integers, double-and-add,
//! own SHAKE256.

pub type N = [u64; 7];

pub const P: N = [
    u64::MAX,
    u64::MAX,
    u64::MAX,
    0xffff_fffe_ffff_ffff,
    u64::MAX,
    u64::MAX,
    u64::MAX,
];
// L = 2^446 - 13818066809895115352007386748515426880336692474882178609894547503885
pub const Q: N = [
    0x2378c292ab5844f3,
    0x216cc2728dc58f55,
    0xc44edb49aed63690,
    0xffffffff7cca23e9,
    u64::MAX,
    u64::MAX,
    0x3fffffffffffffff,
];
pub const ZERO: N = [0; 7];
pub const ONE: N = [1, 0, 0, 0, 0, 0, 0];

pub fn small(x: u64) -> N {
    [x, 0, 0, 0, 0, 0, 0]
}

pub fn cmp(a: &N, b: &N) -> std::cmp::Ordering {
    for i in (0..7).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn lt(a: &N, b: &N) -> bool {
    cmp(a, b) == std::cmp::Ordering::Less
}

/// a + b, carry out
pub fn adc(a: &N, b: &N) -> (N, u64) {
    let mut r = [0; 7];
    let mut c = 0u128;
    for i in 0..7 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c as u64)
}
/// a - b, borrow out
pub fn sbb(a: &N, b: &N) -> (N, u64) {
    let mut r = [0; 7];
    let mut bw = 0u64;
    for i in 0..7 {
        let (d, b1) = a[i].overflowing_sub(b[i]);
        let (d, b2) = d.overflowing_sub(bw);
        r[i] = d;
        bw = (b1 | b2) as u64;
    }
    (r, bw)
}

pub fn wide_mul(a: &N, b: &N) -> [u64; 14] {
    let mut r = [0u64; 14];
    for i in 0..7 {
        let mut c = 0u128;
        for j in 0..7 {
            c += r[i + j] as u128 + (a[i] as u128) * (b[j] as u128);
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 7] = c as u64;
    }
    r
}

// ---------------------------------------------------------------- field mod p

/// Reduce any little-endian big number (64-bit limbs) mod p = 2^448 - 2^224 - 1.
pub fn fp_reduce(x: &[u64]) -> N {
    // Horner over 224-bit chunks would also do; here: fold 2^448 == 2^224 + 1.
    let mut v: Vec<u64> = x.to_vec();
    while v.len() > 7 && v[7..].iter().any(|&w| w != 0) {
        let hi: Vec<u64> = v[7..].to_vec();
        let mut acc = vec![0u64; (hi.len() + 4).max(7) + 1];
        acc[..7].copy_from_slice(&v[..7]);
        add_shifted(&mut acc, &hi, 0);
        // << 224 = 3 limbs + 32 bits
        let mut sh = vec![0u64; hi.len() + 1];
        for (i, &w) in hi.iter().enumerate() {
            sh[i] |= w << 32;
            sh[i + 1] |= w >> 32;
        }
        add_shifted(&mut acc, &sh, 3);
        v = acc;
    }
    let mut r = [0u64; 7];
    for i in 0..7.min(v.len()) {
        r[i] = v[i];
    }
    while !lt(&r, &P) {
        r = sbb(&r, &P).0;
    }
    r
}
fn add_shifted(acc: &mut [u64], x: &[u64], at: usize) {
    let mut c = 0u128;
    let mut i = 0;
    while at + i < acc.len() {
        c += acc[at + i] as u128 + if i < x.len() { x[i] as u128 } else { 0 };
        acc[at + i] = c as u64;
        c >>= 64;
        i += 1;
    }
    debug_assert!(c == 0);
}
/// Fast fold for a 14-limb product (checked against fp_reduce in the self test).
pub fn fp_reduce14(x: &[u64; 14]) -> N {
    // x = lo + hi*2^448 == lo + hi + hi*2^224
    let lo: N = x[..7].try_into().unwrap();
    let hi: N = x[7..].try_into().unwrap();
    // hi*2^224 = (hi_lo224)*2^224 + (hi_hi224)*2^448 == hi_lo*2^224 + hi_hi*2^224 + hi_hi
    let mut acc = [0u128; 7];
    let hh = [
        (hi[3] >> 32) | (hi[4] << 32),
        (hi[4] >> 32) | (hi[5] << 32),
        (hi[5] >> 32) | (hi[6] << 32),
        hi[6] >> 32,
    ]; // high 224 bits
    let hl = [hi[0], hi[1], hi[2], hi[3] & 0xffff_ffff]; // low 224 bits
    for i in 0..7 {
        acc[i] += lo[i] as u128 + hi[i] as u128;
    }
    for i in 0..4 {
        acc[i] += hh[i] as u128;
    }
    for v in [&hl, &hh] {
        let mut c = 0u64;
        for i in 0..4 {
            acc[3 + i] += ((v[i] << 32) | c) as u128;
            c = v[i] >> 32;
        }
        debug_assert!(c == 0);
    }
    loop {
        let mut c = 0u128;
        let mut r = [0u64; 7];
        for i in 0..7 {
            c += acc[i];
            r[i] = c as u64;
            c >>= 64;
        }
        if c == 0 {
            let mut r = r;
            while !lt(&r, &P) {
                r = sbb(&r, &P).0;
            }
            return r;
        }
        for i in 0..7 {
            acc[i] = r[i] as u128;
        }
        acc[0] += c;
        acc[3] += c << 32;
    }
}
pub fn fadd(a: &N, b: &N) -> N {
    let (r, c) = adc(a, b);
    if c != 0 || !lt(&r, &P) {
        sbb(&r, &P).0
    } else {
        r
    }
}
pub fn fsub(a: &N, b: &N) -> N {
    let (r, bw) = sbb(a, b);
    if bw != 0 {
        adc(&r, &P).0
    } else {
        r
    }
}
pub fn fneg(a: &N) -> N {
    fsub(&ZERO, a)
}
pub fn fmul(a: &N, b: &N) -> N {
    fp_reduce14(&wide_mul(a, b))
}
pub fn fsq(a: &N) -> N {
    fmul(a, a)
}
pub fn fpow(a: &N, e: &N) -> N {
    let mut r = ONE;
    for i in (0..448).rev() {
        r = fsq(&r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = fmul(&r, a);
        }
    }
    r
}
pub fn finv(a: &N) -> N {
    let e = sbb(&P, &small(2)).0;
    fpow(a, &e)
}
fn shr(a: &N, n: u32) -> N {
    let mut r = *a;
    for _ in 0..n {
        for i in 0..7 {
            r[i] = (r[i] >> 1) | if i < 6 { r[i + 1] << 63 } else { 0 };
        }
    }
    r
}
/// a is a square mod p (0 counts as one)
pub fn is_square(a: &N) -> bool {
    if *a == ZERO {
        return true;
    }
    let e = shr(&sbb(&P, &ONE).0, 1);
    fpow(a, &e) == ONE
}

// ---------------------------------------------------------------- scalars mod q

/// Reduce any little-endian number mod q by bitwise long division (slow and obvious).
pub fn q_reduce_slow(x: &[u64]) -> N {
    let mut r = ZERO;
    for i in (0..x.len() * 64).rev() {
        // r < q < 2^446, so the shift cannot overflow
        let mut s = [0u64; 7];
        for k in 0..7 {
            s[k] = (r[k] << 1) | if k > 0 { r[k - 1] >> 63 } else { 0 };
        }
        s[0] |= (x[i / 64] >> (i % 64)) & 1;
        r = if lt(&s, &Q) { s } else { sbb(&s, &Q).0 };
    }
    r
}
/// The same by folding 2^446 == c (checked against q_reduce_slow in the self test).
pub fn q_reduce(x: &[u64]) -> N {
    // c = 2^446 - q, 224 bits
    let c = sbb(&[0, 0, 0, 0, 0, 0, 1 << 62], &Q).0;
    let mut v: Vec<u64> = x.to_vec();
    v.resize(v.len().max(7), 0);
    loop {
        // split at bit 446
        let mut hi: Vec<u64> = Vec::new();
        for i in 6..v.len() {
            let nxt = if i + 1 < v.len() { v[i + 1] << 2 } else { 0 };
            hi.push((v[i] >> 62) | nxt);
        }
        while hi.last() == Some(&0) {
            hi.pop();
        }
        let mut lo: N = v[..7].try_into().unwrap();
        lo[6] &= (1 << 62) - 1;
        if hi.is_empty() {
            let mut r = lo;
            while !lt(&r, &Q) {
                r = sbb(&r, &Q).0;
            }
            return r;
        }
        let mut acc = vec![0u64; (hi.len() + 5).max(8)];
        for i in 0..hi.len() {
            let mut cy = 0u128;
            for j in 0..4 {
                cy += acc[i + j] as u128 + hi[i] as u128 * c[j] as u128;
                acc[i + j] = cy as u64;
                cy >>= 64;
            }
            let mut k = i + 4;
            while cy != 0 {
                cy += acc[k] as u128;
                acc[k] = cy as u64;
                cy >>= 64;
                k += 1;
            }
        }
        add_shifted(&mut acc, &lo, 0);
        v = acc;
    }
}
pub fn qadd(a: &N, b: &N) -> N {
    let (r, c) = adc(a, b);
    let mut v = r.to_vec();
    v.push(c);
    q_reduce(&v)
}
pub fn qsub(a: &N, b: &N) -> N {
    let b = q_reduce(b);
    qadd(a, &sbb(&Q, &b).0)
}
pub fn qmul(a: &N, b: &N) -> N {
    q_reduce(&wide_mul(a, b))
}
pub fn qpow(a: &N, e: &N) -> N {
    let mut r = ONE;
    for i in (0..448).rev() {
        r = qmul(&r, &r);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = qmul(&r, a);
        }
    }
    r
}
pub fn qinv(a: &N) -> N {
    qpow(a, &sbb(&Q, &small(2)).0)
}
/// 1/2 mod q
pub fn q_half() -> N {
    shr(&adc(&Q, &ONE).0, 1)
}
pub fn q_quarter() -> N {
    qmul(&q_half(), &q_half())
}

// ---------------------------------------------------------------- bytes

pub fn from_le(b: &[u8]) -> Vec<u64> {
    let mut v = vec![0u64; (b.len() + 7) / 8];
    for (i, &x) in b.iter().enumerate() {
        v[i / 8] |= (x as u64) << (8 * (i % 8));
    }
    v
}
pub fn n_from_le56(b: &[u8]) -> N {
    from_le(&b[..56]).try_into().unwrap()
}
pub fn to_le56(a: &N) -> [u8; 56] {
    let mut r = [0u8; 56];
    for i in 0..56 {
        r[i] = (a[i / 8] >> (8 * (i % 8))) as u8;
    }
    r
}
pub fn to_le57(a: &N) -> [u8; 57] {
    let mut r = [0u8; 57];
    r[..56].copy_from_slice(&to_le56(a));
    r
}

// ---------------------------------------------------------------- curve

fn d() -> N {
    fneg(&small(39081))
}

/// Projective point (X:Y:Z) on x^2 + y^2 = 1 + d x^2 y^2
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: N,
    pub y: N,
    pub z: N,
}
pub const IDENT: Pt = Pt {
    x: ZERO,
    y: ONE,
    z: ONE,
};

pub fn base() -> Pt {
    // RFC 8032 section 5.2 base point, decimal coordinates transcribed as hex
    Pt {
        x: BASE_X,
        y: BASE_Y,
        z: ONE,
    }
}
const BASE_X: N = [
    0x2626a82bc70cc05e,
    0x433b80e18b00938e,
    0x12ae1af72ab66511,
    0xea6de324a3d3a464,
    0x9e146570470f1767,
    0x221d15a622bf36da,
    0x4f1970c66bed0ded,
];
const BASE_Y: N = [
    0x9808795bf230fa14,
    0xfdbd132c4ed7c8ad,
    0x3ad3ff1ce67c39c4,
    0x87789c1e05a0c2d7,
    0x4bea73736ca39840,
    0x8876203756c9c762,
    0x693f46716eb6bc24,
];

impl Pt {
    pub fn add(&self, o: &Pt) -> Pt {
        // RFC 8032 5.2.4
        let a = fmul(&self.z, &o.z);
        let b = fsq(&a);
        let c = fmul(&self.x, &o.x);
        let dd = fmul(&self.y, &o.y);
        let e = fmul(&d(), &fmul(&c, &dd));
        let f = fsub(&b, &e);
        let g = fadd(&b, &e);
        let h = fmul(&fadd(&self.x, &self.y), &fadd(&o.x, &o.y));
        let hcd = fsub(&fsub(&h, &c), &dd);
        Pt {
            x: fmul(&a, &fmul(&f, &hcd)),
            y: fmul(&a, &fmul(&g, &fsub(&dd, &c))),
            z: fmul(&f, &g),
        }
    }
    pub fn dbl(&self) -> Pt {
        let b = fsq(&fadd(&self.x, &self.y));
        let c = fsq(&self.x);
        let dd = fsq(&self.y);
        let e = fadd(&c, &dd);
        let h = fsq(&self.z);
        let j = fsub(&e, &fadd(&h, &h));
        Pt {
            x: fmul(&fsub(&b, &e), &j),
            y: fmul(&e, &fsub(&c, &dd)),
            z: fmul(&e, &j),
        }
    }
    pub fn neg(&self) -> Pt {
        Pt {
            x: fneg(&self.x),
            y: self.y,
            z: self.z,
        }
    }
    pub fn mul(&self, k: &N) -> Pt {
        // 4-bit windows
        let mut tab = [IDENT; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = IDENT;
        for i in (0..112).rev() {
            r = r.dbl().dbl().dbl().dbl();
            let w = ((k[i / 16] >> (4 * (i % 16))) & 15) as usize;
            if w != 0 {
                r = r.add(&tab[w]);
            }
        }
        r
    }
    pub fn affine(&self) -> (N, N) {
        let zi = finv(&self.z);
        (fmul(&self.x, &zi), fmul(&self.y, &zi))
    }
    pub fn eq(&self, o: &Pt) -> bool {
        fmul(&self.x, &o.z) == fmul(&o.x, &self.z) && fmul(&self.y, &o.z) == fmul(&o.y, &self.z)
    }
    pub fn encode(&self) -> [u8; 57] {
        let (x, y) = self.affine();
        let mut r = to_le57(&y);
        r[56] = ((x[0] & 1) as u8) << 7;
        r
    }
    pub fn on_curve(&self) -> bool {
        let (x, y) = self.affine();
        let (xx, yy) = (fsq(&x), fsq(&y));
        fadd(&xx, &yy) == fadd(&ONE, &fmul(&d(), &fmul(&xx, &yy)))
    }
}

/// RFC 8032 5.2.3. None: not the encoding of a point.
pub fn decode(b: &[u8]) -> Option<Pt> {
    if b.len() != 57 {
        return None;
    }
    let sign = (b[56] >> 7) as u64;
    if b[56] & 0x7f != 0 {
        return None;
    }
    let y = n_from_le56(b);
    if !lt(&y, &P) {
        return None;
    }
    let x = recover_x(&y)?;
    if x == ZERO && sign == 1 {
        return None;
    }
    let x = if x[0] & 1 == sign { x } else { fneg(&x) };
    Some(Pt { x, y, z: ONE })
}
/// one x with (x,y) on the curve, if there is one
pub fn recover_x(y: &N) -> Option<N> {
    let yy = fsq(y);
    let u = fsub(&yy, &ONE);
    let v = fsub(&fmul(&d(), &yy), &ONE);
    // x = u^3 v (u^5 v^3)^((p-3)/4)
    let u3 = fmul(&fsq(&u), &u);
    let u5 = fmul(&u3, &fsq(&u));
    let v3 = fmul(&fsq(&v), &v);
    let e = shr(&sbb(&P, &small(3)).0, 2);
    let x = fmul(&fmul(&u3, &v), &fpow(&fmul(&u5, &v3), &e));
    if fmul(&v, &fsq(&x)) == u {
        Some(x)
    } else {
        None
    }
}

/// fixed-base multiples with a table of 16^i * w * B
pub struct BaseTab {
    t: Vec<[Pt; 16]>,
}
impl BaseTab {
    pub fn new() -> Self {
        Self::of(base())
    }
    pub fn of(p: Pt) -> Self {
        let mut t = Vec::new();
        let mut b = p;
        for _ in 0..112 {
            let mut row = [IDENT; 16];
            for i in 1..16 {
                row[i] = row[i - 1].add(&b);
            }
            b = row[15].add(&b);
            t.push(row);
        }
        BaseTab { t }
    }
    pub fn mul(&self, k: &N) -> Pt {
        let mut r = IDENT;
        for i in 0..112 {
            let w = ((k[i / 16] >> (4 * (i % 16))) & 15) as usize;
            if w != 0 {
                r = r.add(&self.t[i][w]);
            }
        }
        r
    }
}
pub fn base_mul(k: &N) -> Pt {
    use std::sync::OnceLock;
    static T: OnceLock<BaseTab> = OnceLock::new();
    T.get_or_init(BaseTab::new).mul(k)
}

/// The four points of order dividing 4.
pub fn torsion() -> [Pt; 4] {
    [
        IDENT,
        Pt {
            x: ZERO,
            y: fneg(&ONE),
            z: ONE,
        },
        Pt {
            x: ONE,
            y: ZERO,
            z: ONE,
        },
        Pt {
            x: fneg(&ONE),
            y: ZERO,
            z: ONE,
        },
    ]
}

// ---------------------------------------------------------------- SHAKE256

const RC: [u64; 24] = [
    0x0000000000000001,
    0x0000000000008082,
    0x800000000000808A,
    0x8000000080008000,
    0x000000000000808B,
    0x0000000080000001,
    0x8000000080008081,
    0x8000000000008009,
    0x000000000000008A,
    0x0000000000000088,
    0x0000000080008009,
    0x000000008000000A,
    0x000000008000808B,
    0x800000000000008B,
    0x8000000000008089,
    0x8000000000008003,
    0x8000000000008002,
    0x8000000000000080,
    0x000000000000800A,
    0x800000008000000A,
    0x8000000080008081,
    0x8000000000008080,
    0x0000000080000001,
    0x8000000080008008,
];
fn keccakf(s: &mut [u64; 25]) {
    const ROT: [u32; 24] = [
        1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
    ];
    const PIL: [usize; 24] = [
        10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
    ];
    for rc in RC {
        let mut c = [0u64; 5];
        for i in 0..5 {
            c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
        }
        for i in 0..5 {
            let t = c[(i + 4) % 5] ^ c[(i + 1) % 5].rotate_left(1);
            for j in 0..5 {
                s[i + 5 * j] ^= t;
            }
        }
        let mut t = s[1];
        for i in 0..24 {
            let u = s[PIL[i]];
            s[PIL[i]] = t.rotate_left(ROT[i]);
            t = u;
        }
        for j in 0..5 {
            let mut row = [0u64; 5];
            row.copy_from_slice(&s[5 * j..5 * j + 5]);
            for i in 0..5 {
                s[5 * j + i] = row[i] ^ (!row[(i + 1) % 5] & row[(i + 2) % 5]);
            }
        }
        s[0] ^= rc;
    }
}
pub fn shake256(parts: &[&[u8]], out: &mut [u8]) {
    const RATE: usize = 136;
    let mut s = [0u64; 25];
    let mut pos = 0;
    let xor = |s: &mut [u64; 25], pos: usize, b: u8| s[pos / 8] ^= (b as u64) << (8 * (pos % 8));
    for p in parts {
        for &b in *p {
            xor(&mut s, pos, b);
            pos += 1;
            if pos == RATE {
                keccakf(&mut s);
                pos = 0;
            }
        }
    }
    xor(&mut s, pos, 0x1f);
    xor(&mut s, RATE - 1, 0x80);
    keccakf(&mut s);
    pos = 0;
    for o in out {
        if pos == RATE {
            keccakf(&mut s);
            pos = 0;
        }
        *o = (s[pos / 8] >> (8 * (pos % 8))) as u8;
        pos += 1;
    }
}
const DOM: &[u8] = b"SigEd448\0\0";
fn h114(parts: &[&[u8]]) -> [u8; 114] {
    let mut all: Vec<&[u8]> = vec![DOM];
    all.extend_from_slice(parts);
    let mut o = [0u8; 114];
    shake256(&all, &mut o);
    o
}
pub fn challenge(r: &[u8], a: &[u8], m: &[u8]) -> N {
    q_reduce(&from_le(&h114(&[r, a, m])))
}

// ---------------------------------------------------------------- Ed448

/// clamped secret scalar as an integer (448 bits)
pub fn clamp_int(b: &[u8]) -> N {
    let mut c = [0u8; 56];
    c.copy_from_slice(&b[..56]);
    c[0] &= 0xfc;
    c[55] |= 0x80;
    n_from_le56(&c)
}
/// public key of a raw (pre-expanded) secret
pub fn pub_of_secret(sk: &[u8; 57]) -> [u8; 57] {
    base_mul(&q_reduce(&clamp_int(sk))).encode()
}
/// public key of an RFC 8032 seed
pub fn pub_of_seed(seed: &[u8; 57]) -> [u8; 57] {
    let mut h = [0u8; 114];
    shake256(&[seed], &mut h);
    let mut s = [0u8; 57];
    s.copy_from_slice(&h[..57]);
    pub_of_secret(&s)
}
/// S = r + k a with R = rB, everything given explicitly
pub fn sign_core(a: &N, a_enc: &[u8], r: &N, m: &[u8]) -> [u8; 114] {
    let renc = base_mul(r).encode();
    let k = challenge(&renc, a_enc, m);
    let s = qadd(r, &qmul(&k, a));
    let mut o = [0u8; 114];
    o[..57].copy_from_slice(&renc);
    o[57..].copy_from_slice(&to_le57(&s));
    o
}
pub fn sign_secret_nonce(sk: &[u8; 57], nonce_seed: &[u8], m: &[u8]) -> [u8; 114] {
    let a = q_reduce(&clamp_int(sk));
    let r = q_reduce(&from_le(&h114(&[nonce_seed, m])));
    sign_core(&a, &base_mul(&a).encode(), &r, m)
}
/// RFC 8032 5.2.6 with empty context
pub fn sign_seed(seed: &[u8; 57], m: &[u8]) -> [u8; 114] {
    let mut h = [0u8; 114];
    shake256(&[seed], &mut h);
    let mut s = [0u8; 57];
    s.copy_from_slice(&h[..57]);
    sign_secret_nonce(&s, &h[57..114], m)
}
/// The library's two key forms: top bit of the last byte selects "raw secret".
pub fn is_raw(key: &[u8; 57]) -> bool {
    key[56] & 0x80 != 0
}
pub fn derive_public(key: &[u8; 57]) -> [u8; 57] {
    if is_raw(key) {
        pub_of_secret(key)
    } else {
        pub_of_seed(key)
    }
}
pub fn sign(key: &[u8; 57], m: &[u8]) -> [u8; 114] {
    if is_raw(key) {
        // the clamped secret serves as the nonce seed too
        let mut c = *key;
        c[0] &= 0xfc;
        c[55] |= 0x80;
        c[56] = 0;
        sign_secret_nonce(&c, &c, m)
    } else {
        sign_seed(key, m)
    }
}
/// secret scalar of a key
pub fn scalar_of(key: &[u8; 57]) -> N {
    if is_raw(key) {
        q_reduce(&clamp_int(key))
    } else {
        let mut h = [0u8; 114];
        shake256(&[key], &mut h);
        q_reduce(&clamp_int(&h[..57]))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Why {
    pub zero: bool,
    pub pk_len: bool,
    pub pk_bad: bool,
    pub sig_len: bool,
    pub r_bad: bool,
    pub s_big: bool,
    pub eq_bad: bool,
}
impl Why {
    pub fn accept(&self) -> bool {
        *self == Why::default()
    }
}
/// RFC 8032 5.2.7, cofactored equation [4]SB = [4]R + [4]kA, plus the library's rule that an
/// all-zero key or signature is never valid. Returns every reason for rejection that applies.
pub fn verify(pk: &[u8], sig: &[u8], m: &[u8]) -> Why {
    let mut w = Why::default();
    w.zero = (pk.len() == 57 && pk.iter().all(|&b| b == 0))
        || (sig.len() == 114 && sig.iter().all(|&b| b == 0));
    w.pk_len = pk.len() != 57;
    w.sig_len = sig.len() < 114;
    let a = if w.pk_len { None } else { decode(pk) };
    w.pk_bad = !w.pk_len && a.is_none();
    if w.sig_len {
        return w;
    }
    let r = decode(&sig[..57]);
    w.r_bad = r.is_none();
    let s = n_from_le56(&sig[57..113]);
    w.s_big = sig[113] != 0 || !lt(&s, &Q);
    if let (Some(a), Some(r)) = (a, r) {
        if !w.s_big {
            let k = challenge(&sig[..57], pk, m);
            let lhs = base_mul(&s);
            let rhs = r.add(&a.mul(&k));
            let (l4, r4) = (lhs.dbl().dbl(), rhs.dbl().dbl());
            w.eq_bad = !l4.eq(&r4);
        }
    }
    w
}

/// R of the signature of m under the key: nonce seed from the key, or given
pub fn commitment(key: &[u8; 57], nonce: Option<&[u8; 57]>, m: &[u8]) -> [u8; 57] {
    let mut seed = [0u8; 57];
    if let Some(n) = nonce {
        seed = *n;
    } else if is_raw(key) {
        seed = *key;
        seed[0] &= 0xfc;
        seed[55] |= 0x80;
        seed[56] = 0;
    } else {
        let mut h = [0u8; 114];
        shake256(&[key], &mut h);
        seed.copy_from_slice(&h[57..114]);
    }
    base_mul(&q_reduce(&from_le(&h114(&[&seed, m])))).encode()
}
