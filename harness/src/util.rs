pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn arr57(b: &[u8]) -> [u8; 57] {
    b.try_into().unwrap()
}
/// FNV-1a style 64-bit mix; used for outcome fingerprints only
pub fn h64(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for &b in *p {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff51afd7ed558ccd).wrapping_mul(0x9e3779b97f4a7c15);
        h ^= h >> 29;
    }
    h
}
/// deterministic byte stream (splitmix64) used to give alphabets generic-looking members;
/// nothing is drawn at random: member i of an alphabet is always the same bytes
pub fn stream(tag: u64, n: usize) -> Vec<u8> {
    let mut s = tag.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def0;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        v.extend_from_slice(&z.to_le_bytes());
    }
    v.truncate(n);
    v
}
pub fn key(tag: u64, raw: bool) -> [u8; 57] {
    let mut k = arr57(&stream(tag, 57));
    if raw {
        k[56] |= 0x80
    } else {
        k[56] &= 0x7f
    }
    k
}
