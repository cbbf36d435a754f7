#!/usr/bin/env python3
"""Development-time generator of /verif/harness/kat.txt.

An independent oracle for the Rust reference model: OpenSSL's Ed448 (through libcrypto, ctypes)
for seed keys, and plain Python integers for everything OpenSSL has no interface for (raw secret
scalars, point multiples, encodings, verification of unusual triples). The file is committed; the
harness replays it against the reference model before every run.
"""
import ctypes, ctypes.util, hashlib, random
P = 2**448 - 2**224 - 1
Q = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
D = -39081 % P
B = (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
     298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)
assert (B[0]**2 + B[1]**2 - 1 - D*B[0]**2*B[1]**2) % P == 0
lib = ctypes.CDLL("libcrypto.so.3")
for f in ("EVP_PKEY_new_raw_private_key", "EVP_PKEY_new_raw_public_key", "EVP_MD_CTX_new"):
    getattr(lib, f).restype = ctypes.c_void_p
NID = 1088
def c(b): return ctypes.create_string_buffer(bytes(b), len(b))
def ossl_pub(seed):
    k = lib.EVP_PKEY_new_raw_private_key(NID, None, c(seed), ctypes.c_size_t(57))
    o = ctypes.create_string_buffer(57); n = ctypes.c_size_t(57)
    assert lib.EVP_PKEY_get_raw_public_key(ctypes.c_void_p(k), o, ctypes.byref(n)) == 1
    return o.raw
def ossl_sign(seed, m):
    k = lib.EVP_PKEY_new_raw_private_key(NID, None, c(seed), ctypes.c_size_t(57))
    x = ctypes.c_void_p(lib.EVP_MD_CTX_new())
    assert lib.EVP_DigestSignInit(x, None, None, None, ctypes.c_void_p(k)) == 1
    o = ctypes.create_string_buffer(114); n = ctypes.c_size_t(114)
    assert lib.EVP_DigestSign(x, o, ctypes.byref(n), c(m), ctypes.c_size_t(len(m))) == 1
    return o.raw
def ossl_verify(pk, sig, m):
    k = lib.EVP_PKEY_new_raw_public_key(NID, None, c(pk), ctypes.c_size_t(57))
    if not k: return False
    x = ctypes.c_void_p(lib.EVP_MD_CTX_new())
    if lib.EVP_DigestVerifyInit(x, None, None, None, ctypes.c_void_p(k)) != 1: return False
    return lib.EVP_DigestVerify(x, c(sig), ctypes.c_size_t(114), c(m), ctypes.c_size_t(len(m))) == 1

def add(a, b):
    x1, y1 = a; x2, y2 = b
    t = D*x1*x2*y1*y2 % P
    return ((x1*y2 + y1*x2) * pow(1 + t, -1, P) % P, (y1*y2 - x1*x2) * pow(1 - t, -1, P) % P)
def mul(k, a):
    r = (0, 1)
    for i in reversed(range(k.bit_length())):
        r = add(r, r)
        if k >> i & 1: r = add(r, a)
    return r
def enc(a): return (a[1] | (a[0] & 1) << 455).to_bytes(57, "little")
def dec(b):
    n = int.from_bytes(b, "little"); s = n >> 455; y = n & (2**455 - 1)
    if y >= P: return None
    u = (y*y - 1) % P; v = (D*y*y - 1) % P
    w = u * pow(v, -1, P) % P
    x = pow(w, (P + 1)//4, P)
    if x*x % P != w: return None
    if x == 0 and s: return None
    return (x if x & 1 == s else P - x, y)
def H(*p): return int.from_bytes(hashlib.shake_256(b"SigEd448\0\0" + b"".join(p)).digest(114), "little")
def clampi(b):
    b = bytearray(b[:56]); b[0] &= 0xfc; b[55] |= 0x80
    return int.from_bytes(b, "little")
def sign_nonce(sk, n, m):
    a = clampi(sk) % Q; A = enc(mul(a, B)); r = H(n, m) % Q; R = enc(mul(r, B))
    return R + ((r + H(R, A, m) * a) % Q).to_bytes(57, "little")
def verify(pk, sig, m):
    if pk == bytes(57) or sig == bytes(114): return False
    A = dec(pk); R = dec(sig[:57]); S = int.from_bytes(sig[57:], "little")
    if A is None or R is None or S >= Q: return False
    k = H(sig[:57], pk, m) % Q
    return mul(4, mul(S, B)) == mul(4, add(R, mul(k, A)))

rnd = random.Random(448)
rb = rnd.randbytes
out = []
for i in range(60):
    seed = bytearray(rb(57)); m = rb([0, 1, 2, 11, 64, 135, 136, 137, 256, 1023][i % 10])
    if i % 3 == 0: seed[56] &= 0x7f
    seed = bytes(seed)
    pk, sig = ossl_pub(seed), ossl_sign(seed, m)
    h = hashlib.shake_256(seed).digest(114)
    assert pk == enc(mul(clampi(h), B)) and sig == sign_nonce(h[:57], h[57:], m)
    out.append(f"seed {seed.hex()} {pk.hex()} {m.hex() or '-'} {sig.hex()}")
    if seed[56] >= 0x80:
        cl = bytearray(seed); cl[0] &= 0xfc; cl[55] |= 0x80; cl[56] = 0; cl = bytes(cl)
        out.append(f"raw {seed.hex()} {enc(mul(clampi(seed), B)).hex()} {m.hex() or '-'} {sign_nonce(cl, cl, m).hex()}")
    bad = bytearray(sig); bad[rnd.randrange(114)] ^= 1 << rnd.randrange(8); bad = bytes(bad)
    v = verify(pk, bad, m); assert v == ossl_verify(pk, bad, m) == False
    assert verify(pk, sig, m) and ossl_verify(pk, sig, m)
    out.append(f"verify {pk.hex()} {sig.hex()} {m.hex() or '-'} 1")
    out.append(f"verify {pk.hex()} {bad.hex()} {m.hex() or '-'} 0")
T = [(0, 1), (0, P - 1), (1, 0), (P - 1, 0)]
for ta in T:
    for tr in T:
        for a in (0, 1, 5, Q - 1):
            for r in (0, 1, Q - 1):
                A = enc(add(mul(a, B), ta)); R = enc(add(mul(r, B), tr)); m = b"mc"
                S = (r + H(R, A, m) * a) % Q
                for S2 in (S, S + Q, (S + 1) % Q):
                    sig = R + S2.to_bytes(57, "little")
                    out.append(f"verify {A.hex()} {sig.hex()} {m.hex()} {int(verify(A, sig, m))}")
for i in range(40):
    k = [0, 1, 2, 3, 4, Q - 1, Q - 2, Q // 2][i] if i < 8 else rnd.randrange(Q)
    out.append(f"mul {k.to_bytes(57, 'little').hex()} {enc(mul(k, B)).hex()}")
ys = list(range(40)) + [P - i for i in range(1, 20)] + [P + i for i in range(20)] + [2**448 - i for i in range(1, 5)] + [rnd.randrange(P) for _ in range(20)]
for y in ys:
    for s in (0, 1, 2):
        b = (y + (s << 455) if s < 2 else y + (1 << 448)).to_bytes(57, "little")
        p = dec(b)
        if p is not None: assert enc(p) == b
        out.append(f"decode {b.hex()} {'-' if p is None else p[0].to_bytes(57, 'little').hex()}")
for i in range(40):
    n = rnd.choice([56, 57, 112, 114, 200]); b = rb(n) if i else b"\xff" * 114
    out.append(f"modq {b.hex()} {(int.from_bytes(b, 'little') % Q).to_bytes(57, 'little').hex()}")
    out.append(f"modp {b.hex()} {(int.from_bytes(b, 'little') % P).to_bytes(57, 'little').hex()}")
for n in (0, 1, 135, 136, 137, 271, 272, 273, 1000):
    m = bytes(i & 255 for i in range(n))
    out.append(f"shake {m.hex() or '-'} {hashlib.shake_256(m).digest(300).hex()}")
# RFC 8032 section 7.4, "Blank" and "1 octet"
out.append("seed 6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b 5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180 - 533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd3980ff0d2028d4b18a9df63e006c5d1c2d345b925d8dc00b4104852db99ac5c7cdda8530a113a0f4dbb61149f05a7363268c71d95808ff2e652600")
open("/verif/harness/kat.txt", "w").write("\n".join(out) + "\n")
print(len(out))
