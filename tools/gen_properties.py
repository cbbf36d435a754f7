#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, E, P, B, S, L = ("src/goldilocks.rs", "src/eddsa.rs", "src/extended_point.rs", "src/bignumber.rs", "src/scalar.rs", "src/lib.rs")
ALL = [G, E, P, B, S]

def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

HOOK = "cfg(verif_hooks) re-export of the internal modules; the public-API spaces run without it"
props = [
 p("C01", "Every signature verifies under the matching public key",
   "For every 57-byte key (seed form or raw-secret form) and every message of any length, the signature produced by any signing entry point is accepted by both verification functions under the public key derived from the same key. Signing and deriving never panic and never return an error.",
   ["inputs"], "all keys of both forms, all messages, all signing and verification entry points",
   "The suite signs and verifies a handful of random 32-byte messages and a few fixed vectors; it never varies key shape, message length or entry point systematically.",
   ALL + [L], [("sign", "goldilocks.rs ed448_sign, sign_by_private, sign_with_secret_and_nonce"), ("verify", "eddsa.rs dsa_verify; goldilocks.rs ed448_verify, ed448_verify_with_error")],
   ["return values of sign, derive and verify"]),
 p("C02", "Signature bytes are exactly those of the Ed448 scheme",
   "A seed-form key signs exactly as RFC 8032 Ed448 (empty context) with that seed; a raw-secret key signs by the same equations with the clamped secret as scalar and, unless a nonce seed is supplied, the clamped secret bytes as nonce seed. Signing is deterministic: the 114 output bytes are a function of key, nonce seed and message only.",
   ["inputs"], "all keys of both forms, explicit nonce seeds, all messages of any length",
   "Only two or three literal signatures over 32-byte messages are compared; carries, reductions, hash block boundaries and empty or long messages are not reached.",
   ALL, [("hash inputs and clamping", "eddsa.rs clamp, sha3, hash_with_dom"), ("signing equations", "goldilocks.rs sign_by_private, sign_with_secret_and_nonce, ed448_sign"), ("response arithmetic", "scalar.rs mul, add, encode, decode_long")],
   ["the 114 signature bytes"]),
 p("C03", "Public key derivation is exact and the same on every route",
   "For every key, the derived public key is the canonical encoding of the clamped scalar times the Ed448 base point, the scalar being the hash of the seed for seed-form keys (as RFC 8032 prescribes) and the key's own bytes for raw-secret keys. The derivation functions, the conversions between them and every key-container constructor give the same public key.",
   ["inputs"], "all 57-byte keys, all derivation routes",
   "Two fixed keys are compared with literals.",
   ALL + [L], [("clamp, halve twice, fixed-base multiply, encode", "goldilocks.rs point_by_secret, private_to_secret, secret_to_public, ed448_derive_public"), ("containers", "lib.rs SigningKey::from_*")],
   ["the 57 public key bytes"]),
 p("C04", "Verification accepts exactly what the Ed448 equation accepts",
   "For every public key, signature and message, verification succeeds if and only if key and R are encodings of curve points, S is below the group order, and 4(S·B) = 4R + 4(k·A), where k is the hash of the domain prefix, R, the key bytes as given and the message. No other triple is accepted, whatever bytes are altered.",
   ["inputs"], "all (public key, signature, message) triples, including adversarial points, torsion components and edge scalars",
   "The suite contains one accepting vector and three rejecting ones.",
   ALL, [("verification equation", "eddsa.rs dsa_verify"), ("double-scalar multiplication, comparison", "extended_point.rs point_double_scalamul_non_secret, mod_equal"), ("challenge reduction", "scalar.rs decode_long, sub")],
   ["accept or reject result of ed448_verify / ed448_verify_with_error"]),
 p("C05", "Signatures and keys have one accepted encoding",
   "Nobody can derive from an accepted (key, signature, message) another accepted one by re-encoding: S plus a multiple of the group order, a point with y not below the field prime, set unused bits, a sign bit on x = 0, bytes that satisfy the curve equation only partly, or the key plus a small-order point under the same signature are all rejected.",
   ["inputs"], "all alternative encodings of S, R and the public key",
   "No test presents a non-canonical encoding of a value that would otherwise verify.",
   [E, P, B, S, "src/constants32.rs"], [("range check of S", "eddsa.rs dsa_verify"), ("canonical decoding of y and sign", "extended_point.rs eddsa_like_decode, bignumber.rs dsa_like_deserialize"), ("key bytes bound in the challenge", "eddsa.rs dsa_verify")],
   ["accept or reject result of verification"]),
 p("C06", "Verification is total and names the fault",
   "Verification returns for every byte strings of every length given as key, signature and message: it never panics or hangs. The result names a fault actually present: wrong key length, undecodable key, signature shorter than 114 bytes, undecodable signature part, or invalid signature; an all-zero key and an all-zero signature are always rejected as invalid. Both verification functions agree on every input.",
   ["inputs"], "all byte strings of all lengths in each of the three arguments",
   "Tests use correctly sized inputs only.",
   [G, E, P, "src/errors.rs"], [("length and zero checks", "goldilocks.rs ed448_verify, ed448_verify_with_error; eddsa.rs dsa_verify; extended_point.rs eddsa_like_decode")],
   ["Result of ed448_verify and ed448_verify_with_error, absence of panics"]),
 p("C07", "Point decoding accepts exactly the canonical curve points",
   "A 57-byte string is accepted as a point (public key or signature R) if and only if it is the canonical Ed448 encoding of a point on the curve, and the decoded point is that point up to the small-order component the scheme ignores. Points derived from keys and signatures encode to that canonical form, so decode and encode are inverse.",
   ["inputs"], "all 57-byte strings, all curve points",
   "One decoding literal is tested.",
   [P, B, "src/constants32.rs"], [("decompression, square root, on-curve check", "extended_point.rs eddsa_like_decode, is_on_curve; bignumber.rs isr, dsa_like_deserialize"), ("encoding", "extended_point.rs eddsa_like_encode; bignumber.rs dsa_like_serialize, invert")],
   ["acceptance by the decoder / verification error class", "encoded bytes"], HOOK),
 p("C08", "Field arithmetic is exact modulo 2^448 - 2^224 - 1",
   "Addition, subtraction, multiplication, squaring, multiplication by curve constants, negation, inversion, inverse square root, comparison, selection, reduction and (de)serialisation compute the mathematically exact result for every operand in every limb representation the library produces, including unreduced sums. No intermediate overflow or lost carry is reachable.",
   ["inputs"], "all operand values in all reachable limb representations",
   "Each operation is tested on one or two literals; carry chains and unreduced representations are not reached.",
   [B, "src/karatsuba_32.rs", "src/karatsuba_square_32.rs", "src/constants32.rs"], [("limb arithmetic", "bignumber.rs"), ("Karatsuba multiply and square", "karatsuba_32.rs, karatsuba_square_32.rs"), ("reduction", "bignumber.rs strong_reduce, weak_reduce")],
   ["result values modulo p", "public keys and verification results through the API"], HOOK),
 p("C09", "Scalar arithmetic is exact modulo the group order",
   "Addition, subtraction, multiplication, halving, encoding and reduction of byte strings of any length compute the exact result modulo the Ed448 group order, always fully reduced. Signatures therefore carry the exact response scalar for every hash output.",
   ["inputs"], "all scalar operands and all byte strings reduced",
   "Each operation is tested on a few literals, never at the reduction boundaries.",
   [S, "src/constants32.rs"], [("add/sub with borrow, Montgomery multiplication, wide reduction", "scalar.rs sub_extra, montgomery_multiply, decode_long, halve, encode")],
   ["scalar results", "S of signatures"], HOOK),
 p("C10", "Variable-base and double-scalar multiplication are exact",
   "Point addition, doubling, negation, comparison, variable-base multiplication and the combined multiplication used by verification give the exact group element for every scalar and every point, including the identity, equal and opposite points, zero scalars and every recoded digit pattern.",
   ["inputs", "programs"], "all scalars (all digit patterns at all positions), all points, all sequences of point operations",
   "One or two literal multiplications are tested.",
   [P, "src/decaf_wnaf_table.rs"], [("windowed multiplication", "extended_point.rs point_scalar_mul"), ("wNAF recoding and double multiplication", "extended_point.rs recode_wnaf, point_double_scalamul_non_secret, prepare_wnaf_table"), ("group law", "extended_point.rs double_internal, add_*_to_*")],
   ["encoded result points, comparison results", "verification results"], HOOK),
 p("C11", "Fixed-base multiplication is exact for every scalar",
   "The base-point multiplication behind key derivation and signing gives the exact multiple of the base point for every scalar, whichever precomputed table entries and signs it uses.",
   ["inputs"], "all scalars; all (row, comb, digit) table accesses",
   "Two literal scalars are tested, reaching a fraction of the 80 table entries.",
   [P, "src/decaf_combs_32.rs"], [("comb method", "extended_point.rs precomputed_scalar_mul, decaf_combs_32.rs table")],
   ["public keys of raw-secret keys", "encoded multiples"], HOOK),
 p("C12", "Key containers keep their bytes and reject other lengths",
   "Converting between byte, text, secret-key, signing-key and verifying-key forms, in any order and by any route, preserves the 57 key bytes and yields the public key that belongs to them; two containers are equal exactly when their keys are. A slice of another length never produces a key: the fallible constructor returns the length error carrying the actual length and the others refuse.",
   ["inputs", "histories"], "all keys, all conversion sequences, all slice lengths",
   "Four constructor round trips with constant keys are tested.",
   [L], [("constructors and conversions", "lib.rs SecretKey, VerifyingKey, SigningKey")],
   ["to_bytes, as_bytes, verifying_key, secret_key, ==, Result"]),
 p("C13", "Text and serde forms round-trip and reject malformed input",
   "Serialising a secret, signing or verifying key gives, in every format, the lower-case hex string of its 57 bytes, and deserialising accepts exactly hex strings of 57 bytes and reproduces the key. Any other document is reported as a deserialisation error, never a panic or a wrong key, and reading from formats that are not human-readable is refused; the hex helper functions yield a value only for exact-length hex text.",
   ["inputs"], "all keys, all strings and documents",
   "Three round trips of one constant key are tested.",
   [L, G], [("serde impls", "lib.rs Serialize/Deserialize"), ("hex helpers", "goldilocks.rs hex_to_*")],
   ["JSON text, Result of deserialisation"]),
 p("C14", "Prehash signatures are signature then public key",
   "Signing through a signing key yields 171 bytes: the 114-byte signature of exactly the given bytes under that key, followed by the 57 bytes of its public key. Both the 114-byte prefix and the whole 171-byte form verify under that public key and message, and under no other.",
   ["inputs"], "all signing keys, all prehash byte strings of all lengths",
   "sign_prehash is not tested at all.",
   [L, G, E], [("layout", "lib.rs sign_prehash, Signature::as_slice")],
   ["the 171 bytes, verification results"]),
 p("C15", "Results do not depend on history or on other threads",
   "Every call returns what it returns in a fresh process: no sequence of earlier calls, succeeding or failing, and no interleaving with calls on other threads changes the result of a call with the same arguments, and arguments are never modified.",
   ["histories", "schedules"], "all call sequences, all interleavings of concurrent calls",
   "Tests make isolated calls.",
   [G, E, P, L], [("no shared mutable state: all working values are locals, tables are constants", "whole crate")],
   ["results of every call in a sequence compared with the same call alone"], None,
   [("none", "the crate has no mutable static, cell, lock or thread-local; that absence is what the property protects", "src/*.rs")]),
 p("C16", "Generated keys use all of the random source",
   "A key generated from a caller-supplied random source depends on all 57 bytes drawn and on nothing else: distinct source outputs give distinct keys, no bit is fixed, dropped or carried over between calls. The built-in generator returns a fresh key on every call, on every thread and in every process, forked ones included, with every bit able to take both values, and every generated key signs and verifies.",
   ["inputs", "histories"], "all outputs of the random source, all sequences of generator calls",
   "Key generation is only used as a source of keys in one batch test.",
   [L, G], [("key generation", "lib.rs SigningKey::random; goldilocks.rs ed448_generate_key")],
   ["bytes of generated keys"]),
 p("C17", "The secret nonce binds the whole key and the whole message",
   "Two signatures share the nonce commitment R only if key (with nonce seed, where supplied) and message are the same: every bit of the message at every position and length, and every effective bit of the key, changes R. R is the one prescribed by the scheme.",
   ["inputs"], "all pairs of (key, message)",
   "No test compares the nonces of two signatures.",
   [G, E], [("nonce derivation", "goldilocks.rs sign_by_private, sign_with_secret_and_nonce; eddsa.rs hash_with_dom")],
   ["first 57 bytes of signatures"]),
]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

note = "Every member of the stated finite spaces is executed on the crate built from /repo and compared with an independent reference model of Ed448 (itself checked against vectors on every run). Nothing is claimed for inputs outside those spaces; trusted: the reference model, the enumerator, rustc."
extra = {
 "C15": " Schedules: every interleaving of whole calls for small thread programs, and, on an instrumented build under a cooperative scheduler, every schedule with at most 2 preemptions (thorough 3) at accesses to shared written memory inside calls, for programs of up to three threads; sequentially consistent memory is assumed. Histories are also compared with the same call alone in a fresh process.",
 "C16": " The built-in generator is seeded by the operating system: its freshness is checked on a bounded history of calls.",
}
tech = {
 "C15": "stateless model checking of the real code: all call sequences to a depth, and preemption-bounded exploration of all schedules inside calls under a controlled scheduler, against the fresh-process result",
 "C10": "explicit enumeration of operation sequences, digit patterns and edge scalars on the real code against a reference group model",
}
import subprocess
man = {"version": 1, "setup_cmd": "bash ./setup.sh",
 "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by /verif/check.sh)", "source_commits": ["2819724"]},
 "checks": [], "not_applicable": [],
 "notes": "See DESIGN.md. Genuine defects found and repaired are listed in known-findings.txt."}
for x in props:
    i = x["id"]
    man["checks"].append({"property": i, "quick_cmd": f"bash ./check.sh {i} quick", "thorough_cmd": f"bash ./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json",
      "technique": tech.get(i, "bounded exhaustive enumeration of the real code's behaviours against a reference model"),
      "level": "model_checking", "level_note": note + extra.get(i, "")})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
