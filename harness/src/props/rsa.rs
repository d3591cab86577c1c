//! C15 raw RSA, C16 key creation, C17 RSA messages, C18 OAEP, C25 randomised encryption.
use super::numbers::gen_int;
use crate::engine::*;
use crate::oracle::big::Int;
use crate::oracle::der::Node;
use crate::oracle::{hash, oaep};
use std::cell::RefCell;
use vpcalls as v;

pub fn n128(v: u128) -> Int {
    Int::from_u128(v)
}
pub fn der_int(i: &Int) -> Node {
    let mut b = i.to_be();
    if b.is_empty() || b[0] >= 0x80 {
        b.insert(0, 0);
    }
    Node::Int(b)
}
pub const OID: [u8; 9] = [42, 134, 72, 134, 247, 13, 1, 1, 1];
pub fn alg_id() -> Node {
    Node::Seq(vec![Node::Oid(OID.to_vec()), Node::Null])
}
pub fn spki(n: &Int, e: &Int) -> Node {
    Node::Seq(vec![alg_id(), Node::Bits(Node::Seq(vec![der_int(n), der_int(e)]).enc(), 0)])
}
/// the seven remaining fields are not used by the library's arithmetic: any integers do
pub fn rsa_private(n: &Int, d: &Int, others: &[Int; 6]) -> Node {
    let [e, p, q, dp, dq, qi] = others;
    Node::Seq(vec![Node::Int(vec![0]), der_int(n), der_int(e), der_int(d), der_int(p), der_int(q), der_int(dp), der_int(dq), der_int(qi)])
}
pub fn pkcs8(n: &Int, d: &Int, others: &[Int; 6]) -> Node {
    Node::Seq(vec![Node::Int(vec![0]), alg_id(), Node::Oct(rsa_private(n, d, others).enc())])
}
fn dummies() -> [Int; 6] {
    [n128(65537), n128(3), n128(5), n128(1), n128(1), n128(2)]
}
pub fn key(cx: &mut Cx, n: &Int, x: &Int, private: bool) -> Option<v::Rsa> {
    let ctx = || format!("importing a {} key n={} x={}", if private { "private" } else { "public" }, hex(&n.to_be()), hex(&x.to_be()));
    let r = cx.must("key import", ctx, || {
        if private {
            v::import_priv("PRIVATE KEY", &pkcs8(n, x, &dummies()).enc()).map(v::rsa_priv)
        } else {
            v::import_pub("PUBLIC KEY", &spki(n, x).enc()).map(v::rsa_pub)
        }
    })?;
    match r {
        Ok(k) => Some(k),
        Err(e) => {
            cx.viol("key import: error", format!("{}: {e}", ctx()));
            None
        }
    }
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "a case is (modulus >= 2, exponent, m, which operation) evaluated through an imported key and compared with reference modular exponentiation; exhaustive for moduli up to 24, random and structured (odd, even, prime power, powers of two and neighbours, m >= n, m = 0, 1, n-1, n) otherwise; distinct by (n, x, m)",
    scenarios: &[
        Scenario::sweep("pow-small", 23, 60, pow_small),
        Scenario::sweep("pow-edges", 1200, 12000, pow_edges),
        Scenario::heavy_plain("pow-large", 24, 240, pow_large),
        Scenario::sweep("pow-long-exponent", 64, 400, pow_long_exponent),
        Scenario::random("pow-random", 10, pow_random),
    ],
    cap: 1 << 30,
};
fn pow_one(cx: &mut Cx, n: &Int, x: &Int, m: &Int, private: bool, enc: bool) {
    let Some(k) = key(cx, n, x, private) else { return };
    pow_with(cx, &k, n, x, m, enc);
}
fn pow_with(cx: &mut Cx, k: &v::Rsa, n: &Int, x: &Int, m: &Int, enc: bool) {
    cx.case(&[&n.to_be(), b"/", &x.to_be(), b"/", &m.to_be()]);
    let ctx = || format!("{} n={} x={} m={}", if enc { "encrypt" } else { "decrypt" }, hex(&n.to_be()), hex(&x.to_be()), hex(&m.to_be()));
    let mb = m.to_be();
    let Some(g) = cx.must("RSA operation", ctx, || if enc { v::rsa_enc(k, &mb) } else { v::rsa_dec(k, &mb) }) else { return };
    let want = m.modpow(x, n);
    let got = Int::from_be(&g);
    if got != want {
        cx.viol("RSA operation is not m^x mod n", format!("{}: got {} want {}", ctx(), hex(&g), hex(&want.to_be())));
    }
    cx.class(if m.cmp(n) != std::cmp::Ordering::Less { "m >= n" } else if m.is_zero() { "m = 0" } else { "m < n" });
    cx.class(if n.bit(0) { "odd modulus" } else { "even modulus" });
    if x.is_zero() {
        cx.class("exponent 0");
    }
}
fn pow_small(i: u64, _t: &mut Tape, cx: &mut Cx) {
    let n = n128(i as u128 + 2);
    for x in 0..2 * (i as u128 + 2).min(16) {
        let x = n128(x);
        let Some(k) = key(cx, &n, &x, i % 2 == 0) else { return };
        for m in 0..2 * (i as u128 + 2) + 3 {
            pow_with(cx, &k, &n, &x, &n128(m), m % 2 == 0);
        }
    }
}
fn edge(t: &mut Tape, bits: u64) -> Int {
    let k = t.below(bits) + 1;
    let p = n128(1).shl(k);
    match t.below(4) {
        0 => p,
        1 => p.dec(),
        2 => p.add(&n128(1)),
        _ => p.add(&n128(1).shl(t.below(k))),
    }
}
fn m_for(t: &mut Tape, n: &Int) -> Int {
    match t.below(9) {
        0 => Int::zero(),
        1 => n128(1),
        2 => n.dec(),
        3 => n.clone(),
        4 => n.add(&n128(t.below(5) as u128)),
        5 => n.shl(t.below(20)).add(&n128(t.below(1000) as u128)),
        6 => n.shr(1),
        _ => Int::from_be(&gen_int(t, n.bytes() + 2)),
    }
}
fn pow_edges(_: u64, t: &mut Tape, cx: &mut Cx) {
    let mut n = edge(t, 130);
    if n.bits() < 2 {
        n = n128(2);
    }
    let x = if t.chance(1, 2) { edge(t, 20) } else { n128(t.below(40) as u128) };
    let m = m_for(t, &n);
    let (p, e) = (t.chance(1, 2), t.chance(1, 2));
    pow_one(cx, &n, &x, &m, p, e);
}
fn pow_large(i: u64, t: &mut Tape, cx: &mut Cx) {
    let bytes = [33, 64, 65, 100, 128, 160][(i % 6) as usize];
    let mut b = t.seeded(bytes);
    b[0] |= 1;
    if i % 3 == 0 {
        b[bytes - 1] &= 0xfe;
    }
    let n = Int::from_be(&b);
    let x = *t.pick(&[1u128, 2, 3, 5, 17, 257]);
    let m = m_for(t, &n);
    let p = t.chance(1, 2);
    pow_one(cx, &n, &n128(x), &m, p, i % 2 == 0);
    cx.class("modulus above 256 bits");
}
fn pow_long_exponent(i: u64, t: &mut Tape, cx: &mut Cx) {
    // exponents around 2^128, 2^1024, 2^2048, 2^4096, 2^8192 and 2^16384 with small moduli
    let bits = [128usize, 1024, 2048, 4096, 256, 512, 8192, 16384][(i % 8) as usize] + t.range(0, 10) - 3;
    let len = bits.div_ceil(8);
    let mut b = if t.chance(1, 2) { t.seeded(len) } else { vec![0; len] };
    let top = (bits - 1) % 8;
    b[0] = b[0] & ((1u16 << top) - 1) as u8 | 1 << top;
    let x = Int::from_be(&b);
    let mut n = Int::from_be(&gen_int(t, 3));
    if n.bits() < 2 {
        n = n128(1009);
    }
    let m = m_for(t, &n);
    let (p, e) = (t.chance(1, 2), t.chance(1, 2));
    pow_one(cx, &n, &x, &m, p, e);
    cx.class("exponent above 2^120");
}
fn pow_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let max = *t.pick(&[2usize, 4, 8, 8, 16, 17, 24]);
    let mut n = Int::from_be(&gen_int(t, max));
    if n.bits() < 2 {
        n = n128(2 + t.below(60000) as u128);
    }
    let xl = *t.pick(&[1usize, 2, 2, 3, 6, 17, 40]);
    let x = Int::from_be(&gen_int(t, xl));
    let m = m_for(t, &n);
    let (p, e) = (t.chance(1, 2), t.chance(1, 2));
    pow_one(cx, &n, &x, &m, p, e);
    cx.sample(97, || format!("n={} x={} m={}", hex(&n.to_be()), hex(&x.to_be()), hex(&m.to_be())));
}

// ---------------------------------------------------------------------------------- C16

pub static C16: Prop = Prop {
    id: "C16",
    rule: "a case is (distinct primes p, q, exponent e): with the product below 2^128 and e coprime to (p-1)(q-1) the created keys must compute m^e mod pq (public) and invert it (private, both orders) for several m; otherwise creation must be refused; the same cases run in a build with and one without overflow checks; distinct by (p, q, e)",
    scenarios: &[
        Scenario::sweep("keys-small", 400, 3000, keys_small),
        Scenario::sweep("keys-limit", 240, 2400, keys_limit),
        Scenario::sweep("keys-overflow", 300, 3000, keys_overflow),
        Scenario::random("keys-random", 10, keys_random),
    ],
    cap: 1 << 30,
};
fn next_prime(mut n: Int) -> Int {
    if n.bits() < 2 {
        return n128(2);
    }
    n.set_bit(0, true);
    while !n.is_prime() {
        n = n.add(&n128(2));
    }
    n
}
pub fn random_prime(t: &mut Tape, bits: u64) -> Int {
    if bits <= 2 {
        return n128(*t.pick(&[2u128, 3]));
    }
    loop {
        let mut b = t.sub_rng().bytes(bits as usize / 8 + 1);
        b.reverse();
        let mut n = Int::from_be(&b).rem(&n128(1).shl(bits));
        n.set_bit(bits - 1, true);
        if t.chance(1, 6) {
            // as close to 2^bits as possible
            n = n128(1).shl(bits).dec();
            for _ in 0..2000 {
                if n.is_prime() {
                    return n;
                }
                n = n.sub(&n128(2));
            }
        }
        let p = next_prime(n);
        if p.bits() == bits {
            return p;
        }
    }
}
fn keys_one(cx: &mut Cx, t: &mut Tape, p: &Int, q: &Int, e: &Int, probes: u32) {
    let n = p.mul(q);
    let phi = p.dec().mul(&q.dec());
    cx.case(&[&p.to_be(), b"/", &q.to_be(), b"/", &e.to_be()]);
    let ctx = || format!("p={} q={} e={}", hex(&p.to_be()), hex(&q.to_be()), hex(&e.to_be()));
    let (pb, qb, eb) = (p.to_be(), q.to_be(), e.to_be());
    let ok = n.bits() <= 128 && e.bits() > 0 && e.bits() <= 128 && e.gcd(&phi) == n128(1);
    let r = cx.call(|| v::rsa_create(&pb, &qb, &eb));
    if !ok {
        let why = if n.bits() > 128 { "modulus above 128 bits" } else { "exponent not invertible" };
        cx.class(&format!("must be refused: {why}"));
        if r.is_ok() {
            if n.bits() <= 128 && e.bits() > 128 {
                return; // exponents above 128 bits are outside the property
            }
            cx.viol(&format!("key creation not refused: {why}"), ctx());
        }
        return;
    }
    let (sk, pk) = match r {
        Ok(k) => k,
        Err(err) => {
            cx.viol("key creation refused for valid primes and exponent", format!("{}: {err}", ctx()));
            return;
        }
    };
    cx.class("pairs created");
    if n.bits() > 120 {
        cx.class("modulus above 120 bits");
    }
    // the key a user would have got by importing (pq, e) from a file
    match cx.must("key import", ctx, || v::import_pub("PUBLIC KEY", &spki(&n, e).enc())) {
        Some(Ok(same)) => {
            if !cx.must("key comparison", ctx, || v::pub_eq(&pk, &same)).unwrap_or(true) {
                cx.viol("the created public key is not the key (pq, e)", ctx());
                return;
            }
        }
        Some(Err(err)) => {
            cx.viol("key import: error", format!("{}: {err}", ctx()));
            return;
        }
        None => return,
    }
    let (Some(sk), Some(pk)) = (cx.must("key use", ctx, || v::rsa_priv(sk)), cx.must("key use", ctx, || v::rsa_pub(pk))) else { return };
    for i in 0..probes {
        let m = match i {
            0 => n.dec(),
            1 => p.clone(), // shares a factor with n
            _ => Int::from_be(&t.sub_rng().bytes(17)).rem(&n),
        };
        let mb = m.to_be();
        let Some(c) = cx.must("public operation", ctx, || v::rsa_enc(&pk, &mb)) else { return };
        let want = m.modpow(e, &n);
        if Int::from_be(&c) != want {
            cx.viol("public key does not compute m^e mod pq", format!("{} m={}: got {} want {}", ctx(), hex(&mb), hex(&c), hex(&want.to_be())));
            return;
        }
        let Some(d) = cx.must("private operation", ctx, || v::rsa_dec(&sk, &c)) else { return };
        if Int::from_be(&d) != m {
            cx.viol("private key does not invert the public key", format!("{} m={}: got {}", ctx(), hex(&mb), hex(&d)));
            return;
        }
        if i == 0 {
            let Some(s) = cx.must("private operation", ctx, || v::rsa_enc(&sk, &mb)) else { return };
            let Some(b) = cx.must("public operation", ctx, || v::rsa_dec(&pk, &s)) else { return };
            if Int::from_be(&b) != m {
                cx.viol("public key does not invert the private key", format!("{} m={}: got {}", ctx(), hex(&mb), hex(&b)));
                return;
            }
        }
    }
}
fn keys_small(i: u64, t: &mut Tape, cx: &mut Cx) {
    const P: [u128; 16] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 251, 257, 65537];
    let (a, b) = ((i % 16) as usize, (i / 16 % 16) as usize);
    if a == b {
        return;
    }
    let (p, q) = (n128(P[a]), n128(P[b]));
    let lim = (P[a] - 1) * (P[b] - 1) + 3;
    for e in 0..lim.min(24) {
        keys_one(cx, t, &p, &q, &n128(e), 2);
    }
    for _ in 0..4 {
        let k = *t.pick(&[8u64, 16, 64, 127, 128]);
        let e = edge(t, k);
        keys_one(cx, t, &p, &q, &e, 2);
    }
}
fn keys_limit(i: u64, t: &mut Tape, cx: &mut Cx) {
    // products just below 2^128, balanced or not
    let total = 128 - (i % 3);
    let pb = match i % 4 {
        0 => 64,
        1 => t.range(2, 20) as u64,
        2 => 2,
        _ => t.range(20, 64) as u64,
    };
    let p = random_prime(t, pb);
    let q = random_prime(t, total - pb);
    if p == q {
        return;
    }
    let e = match t.below(6) {
        0 => n128(3),
        1 => n128(65537),
        2 => random_prime(t, 17),
        3 => random_prime(t, 64),
        4 => random_prime(t, 127),
        _ => n128(u128::MAX - t.below(1000) as u128),
    };
    keys_one(cx, t, &p, &q, &e, 1);
}
fn keys_overflow(i: u64, t: &mut Tape, cx: &mut Cx) {
    let pb = match i % 4 {
        0 => 65,
        1 => t.range(66, 127) as u64,
        2 => t.range(2, 60) as u64,
        _ => 128,
    };
    let qb = (130 - pb.min(126)).max(if i % 4 == 2 { 129 - pb } else { 65 }) + t.below(3);
    let p = random_prime(t, pb);
    let q = random_prime(t, qb.min(128));
    let e = n128(*t.pick(&[3u128, 17, 65537, 1]));
    if p == q || p.mul(&q).bits() <= 128 {
        return;
    }
    keys_one(cx, t, &p, &q, &e, 1);
    // factors that do not even fit
    if i % 10 == 0 {
        let big = n128(1).shl(128).add(&n128(51));
        keys_one(cx, t, &big, &n128(3), &n128(65537), 1);
    }
}
fn keys_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let pb = t.range(2, 64) as u64;
    let qb = t.range(2, if pb < 40 { 80 } else { 64 }) as u64;
    let (p, q) = (random_prime(t, pb), random_prime(t, qb));
    if p == q {
        return;
    }
    let phi = p.dec().mul(&q.dec());
    let e = match t.below(8) {
        0 => phi.clone(),
        1 => phi.add(&n128(1)),
        2 => phi.dec(),
        3 => p.clone(),
        4 => n128(65537),
        5 => {
            let k = t.range(1, 128) as u64;
            edge(t, k.min(127))
        }
        _ => {
            let k = t.size(1, 16);
            Int::from_be(&t.bytes(k))
        }
    };
    if e.bits() > 128 {
        return;
    }
    let probes = if pb + qb < 70 { 4 } else { 1 };
    keys_one(cx, t, &p, &q, &e, probes);
    cx.sample(53, || format!("p={} q={} e={}", hex(&p.to_be()), hex(&q.to_be()), hex(&e.to_be())));
}

// ---------------------------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    rule: "a case is (key pair, message): the ciphertext must be exactly as long as the modulus and decrypt to the message; too long messages must be refused; key pairs are squarefree moduli of 66..~150 bytes with smooth orders (so that d is short) plus pairs of ordinary primes, with modulus bit lengths of every residue mod 8 so that ciphertexts and messages with leading zero bytes occur; a recording user padding scheme exercises small moduli; distinct by (n, message)",
    scenarios: &[
        Scenario::sweep("msg-frame", 1500, 15000, frame_sweep),
        Scenario::sweep("msg-raw", 1200, 12000, raw_sweep),
        Scenario::sweep("msg-oaep", 220, 2200, oaep_msg_sweep),
        Scenario::sweep("msg-tamper", 80, 800, tamper_sweep),
        Scenario::heavy_plain("msg-real", 8, 64, real_keys),
        Scenario::random("msg-frame-random", 6, frame_random),
        Scenario::random("msg-oaep-random", 1, oaep_msg_random),
    ],
    cap: 1 << 30,
};
/// primes p with p-1 dividing `l`
fn smooth_primes(l: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut d = 1;
    while d * d <= l {
        if l % d == 0 {
            for c in [d, l / d] {
                let p = c + 1;
                if p > 2 && n128(p as u128).is_prime() {
                    v.push(p);
                }
            }
        }
        d += 1;
    }
    v.sort();
    v.dedup();
    v
}
const LS: [u64; 3] = [367_567_200, 6_983_776_800, 1_102_701_600];
fn smooth_table() -> &'static Vec<Vec<u64>> {
    static T: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
    T.get_or_init(|| LS.iter().map(|l| smooth_primes(*l)).collect())
}
/// (n, e, d) with n of exactly `bits` bits if possible, at least 528-ish; m^(ed) = m for all m
pub fn smooth_key(t: &mut Tape, bits: u64) -> (Int, Int, Int) {
    let li = t.below(3) as usize;
    let l = LS[li];
    let ps = &smooth_table()[li];
    let mut r = t.sub_rng();
    let mut best: Option<Int> = None;
    for _ in 0..60 {
        let mut pool = ps.clone();
        let mut n = n128(1);
        while n.bits() + 30 < bits && !pool.is_empty() {
            let k = r.below(pool.len() as u64) as usize;
            n = n.mul(&n128(pool.swap_remove(k) as u128));
        }
        // finish with one or two primes that give the wanted size
        for _ in 0..200 {
            if pool.is_empty() {
                break;
            }
            let k = r.below(pool.len() as u64) as usize;
            let m = n.mul(&n128(pool[k] as u128));
            if m.bits() == bits {
                best = Some(m);
                break;
            }
            if m.bits() < bits && m.bits() + 8 < bits {
                n = m;
                pool.swap_remove(k);
            }
        }
        if best.is_some() {
            break;
        }
    }
    let n = best.unwrap_or_else(|| {
        // product of everything small
        let mut n = n128(1);
        for p in ps {
            n = n.mul(&n128(*p as u128));
            if n.bits() >= bits {
                break;
            }
        }
        n
    });
    let e = *r.pick(&[23u128, 29, 31, 257, 65537, 1]);
    let e = n128(e);
    let d = e.modinv(&n128(l as u128)).expect("coprime");
    (n, e, d)
}
fn frame_pair(cx: &mut Cx, t: &mut Tape, bits: u64) -> Option<(Int, v::Rsa, v::Rsa, Int)> {
    let (n, e, d) = smooth_key(t, bits);
    let (a, b) = if t.chance(1, 2) { (e.clone(), d) } else { (d, e.clone()) };
    let k1 = key(cx, &n, &a, false)?;
    let k2 = key(cx, &n, &b, true)?;
    Some((n, k1, k2, a))
}
fn frame_check(cx: &mut Cx, t: &mut Tape, bits: u64) {
    let Some((n, k1, k2, x)) = frame_pair(cx, t, bits) else { return };
    let k = n.bytes();
    if k < 3 {
        return;
    }
    let ml = t.size(0, (k - 2).min(250));
    let m = t.bytes(ml);
    let fill = if t.chance(1, 2) { 0 } else { t.byte() };
    cx.case(&[b"frame", &n.to_be(), &x.to_be(), &m, &[fill]]);
    let ctx = || format!("user padding scheme, n={} x={} message {}", hex(&n.to_be()), hex(&x.to_be()), hex(&m));
    let calls = RefCell::new(vec![]);
    let Some(c) = cx.must("encrypt_message", ctx, || v::rsa_enc_frame(&k1, &m, v::FramePadding { calls: &calls, fill })) else { return };
    let log = calls.take();
    if log.len() != 1 || log[0] != (true, vec![], m.clone(), k) {
        cx.viol("padding scheme not asked once for a modulus-length encoding", format!("{}: calls {log:?}", ctx()));
    }
    let mut em = vec![fill; k];
    em[0] = 0;
    em[1] = ml as u8;
    em[2..2 + ml].copy_from_slice(&m);
    let want = Int::from_be(&em).modpow(&x, &n).to_be_len(k);
    if c.len() != k {
        cx.viol("ciphertext is not as long as the modulus", format!("{}: {} bytes instead of {k}", ctx(), c.len()));
    } else {
        cx.eq("ciphertext is not the padded message to the power e", &c, &want, ctx);
    }
    if want[0] == 0 {
        cx.class("ciphertexts with a leading zero byte");
    }
    let Some(p) = cx.must("decrypt_message", ctx, || v::rsa_dec_frame(&k2, &want, v::FramePadding { calls: &calls, fill })) else { return };
    let log = calls.take();
    if log.len() != 1 || log[0] != (false, vec![], em.clone(), k) {
        cx.viol("padding scheme not given the modulus-length decryption", format!("{}: calls {:?}", ctx(), log.iter().map(|l| (l.0, hex(&l.2), l.3)).collect::<Vec<_>>()));
    }
    cx.eq("decrypted message differs", &p, &m, ctx);
    cx.class("frame-padded messages");
}
fn frame_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    frame_check(cx, t, 40 + i % 120);
}
fn frame_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let b = t.range(32, 200) as u64;
    frame_check(cx, t, b);
}
/// a scheme whose blocks and answers are arbitrary: what it gives is used as it is, and it is asked once
fn raw_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    let Some((n, k1, k2, x)) = frame_pair(cx, t, 9 + i % 130) else { return };
    let k = n.bytes();
    let m = t.blob(0, 40);
    let nb = n.to_be();
    let one = n128(1);
    // a number below the modulus, with a first byte that need not be zero
    let v = match t.below(8) {
        0 => n128(0),
        1 => one.clone(),
        2 => n.sub(&one),
        3 => n.shr(1),
        4 => n.shr(8),
        5 => n.sub(&n128(t.below(255) as u128 + 1).rem(&n)),
        _ => Int::from_be(&t.seeded(k + 2)).rem(&n),
    };
    let v = v.rem(&n);
    let block = v.to_be_len(k);
    cx.case(&[b"raw", &nb, &x.to_be(), &m, &block]);
    let ctx = || format!("user padding scheme giving {}, n={} x={} message {}", hex(&block), hex(&nb), hex(&x.to_be()), hex(&m));
    let calls = RefCell::new(vec![]);
    let none = || Err("unused");
    let Some(c) = cx.must("encrypt_message", ctx, || v::rsa_enc_raw(&k1, &m, v::RawPadding { calls: &calls, block: &block, answer: none() })) else { return };
    let log = calls.take();
    if log.len() != 1 || log[0] != (true, vec![], m.clone(), k) {
        cx.viol("padding scheme not asked once for a modulus-length encoding", format!("{}: calls {log:?}", ctx()));
    }
    let want = v.modpow(&x, &n).to_be_len(k);
    cx.eq("ciphertext is not the padded message to the power e", &c, &want, ctx);
    if block[0] > 1 {
        cx.class("padded blocks with a first byte above 1");
    }
    // what the scheme answers is returned, whatever its length; its refusal is a refusal
    let answer = match t.below(4) {
        0 => vec![],
        1 => t.seeded(3 * k + 5),
        2 => block.clone(),
        _ => t.blob(0, 30),
    };
    if let Some(p) = cx.must("decrypt_message", ctx, || v::rsa_dec_raw(&k2, &want, v::RawPadding { calls: &calls, block: &[], answer: Ok(answer.clone()) })) {
        cx.eq("the answer of the padding scheme is not what is returned", &p, &answer, ctx);
    }
    let log = calls.take();
    let seen = |log: &Vec<(bool, Vec<u8>, Vec<u8>, usize)>| log.len() == 1 && log[0] == (false, vec![], block.clone(), k);
    if !seen(&log) {
        cx.viol("padding scheme not given the modulus-length decryption", format!("{}: calls {log:?}", ctx()));
    }
    cx.refuse("a block the padding scheme refuses", |p: &Vec<u8>| format!("{}: gave {}", ctx(), hex(p)), || v::rsa_dec_raw(&k2, &want, v::RawPadding { calls: &calls, block: &[], answer: Err("no") }));
    let log = calls.take();
    if !seen(&log) {
        cx.viol("padding scheme not given the modulus-length decryption", format!("{}: calls {log:?}", ctx()));
    }
    cx.class("messages with arbitrary padding schemes");
}
fn oaep_msg(cx: &mut Cx, t: &mut Tape, bits: u64, over: bool) {
    let Some((n, k1, k2, x)) = frame_pair(cx, t, bits) else { return };
    oaep_msg_with(cx, t, &n, &k1, &k2, &x, over)
}
fn oaep_msg_with(cx: &mut Cx, t: &mut Tape, n: &Int, k1: &v::Rsa, k2: &v::Rsa, x: &Int, over: bool) {
    let k = n.bytes();
    let ctx0 = || format!("n={} x={}", hex(&n.to_be()), hex(&x.to_be()));
    let too_long = |cx: &mut Cx, t: &mut Tape, l: usize| {
        let m = t.seeded(l);
        cx.class("over-long messages offered");
        cx.refuse("message longer than the key allows", |c: &Vec<u8>| format!("{} ({k}-byte modulus), {l}-byte message encrypted to {} bytes", ctx0(), c.len()), || v::rsa_enc_msg(k1, &m));
    };
    if k < 66 {
        let l = t.size(0, 40);
        too_long(cx, t, l);
        return;
    }
    if over {
        let l = k - 66 + 1 + t.size(0, 300);
        too_long(cx, t, l);
        too_long(cx, t, k - 65);
    }
    let l = t.size(0, k - 66);
    let l = if t.chance(1, 4) { k - 66 } else { l };
    let m = t.bytes(l);
    cx.case(&[b"oaep", &n.to_be(), &x.to_be(), &m]);
    let ctx = || format!("n={} ({k} bytes) x={} message ({l} bytes) {}", hex(&n.to_be()), hex(&x.to_be()), hex(&m));
    let Some(c) = cx.must("encrypt_message", ctx, || v::rsa_enc_msg(k1, &m)) else { return };
    if c.len() != k {
        cx.viol("ciphertext is not as long as the modulus", format!("{}: {} bytes", ctx(), c.len()));
    }
    if c.first() == Some(&0) {
        cx.class("ciphertexts with a leading zero byte");
    }
    if let Some(p) = cx.must("decrypt_message", ctx, || v::rsa_dec_msg(k2, &c)) {
        cx.eq("decrypted message differs", &p, &m, ctx);
    }
    // and a ciphertext made independently with another seed
    let seed: [u8; 32] = t.seeded(32).try_into().unwrap();
    let em = oaep::encode(b"", &m, k, &seed);
    let c = Int::from_be(&em).modpow(x, n).to_be_len(k);
    if let Some(p) = cx.must("decrypt_message", ctx, || v::rsa_dec_msg(k2, &c)) {
        cx.eq("decrypted message differs", &p, &m, ctx);
    }
    if c[0] == 0 {
        cx.class("ciphertexts with a leading zero byte");
    }
    cx.class("OAEP messages");
}
fn oaep_msg_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    // 521 bits is the shortest 66-byte modulus; 521 mod 8 = 1 gives many leading zeros
    let bits = match i % 4 {
        0 => 521,
        1 => 521 + i % 32,
        2 => 521 + 8 * (i % 9),
        _ => 500 + i % 400,
    };
    oaep_msg(cx, t, bits, i % 5 == 0);
}
fn oaep_msg_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let b = t.range(521, 700) as u64;
    let o = t.chance(1, 8);
    oaep_msg(cx, t, b, o);
}
fn tamper_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    let Some((n, k1, k2, x)) = frame_pair(cx, t, 521 + i % 40) else { return };
    tamper(cx, t, &n, &k1, &k2, &x);
}
/// C18's last clause: a modified ciphertext never decrypts to a message
fn tamper(cx: &mut Cx, t: &mut Tape, n: &Int, _k1: &v::Rsa, k2: &v::Rsa, x: &Int) {
    let k = n.bytes();
    if k < 66 {
        return;
    }
    let m = t.blob(0, k - 66);
    let seed: [u8; 32] = t.seeded(32).try_into().unwrap();
    let em = oaep::encode(b"", &m, k, &seed);
    let c = Int::from_be(&em).modpow(x, n).to_be_len(k);
    let mut bad = c.clone();
    let kind = t.below(7);
    let what = match kind {
        0 => {
            let p = t.below(k as u64) as usize;
            bad[p] ^= 1 << t.below(8);
            "one bit flipped"
        }
        1 => {
            bad.insert(0, 0);
            "a zero byte prepended"
        }
        2 => {
            bad.push(t.byte());
            "a byte appended"
        }
        3 => {
            bad.remove(if t.chance(1, 2) { 0 } else { k - 1 });
            "a byte removed"
        }
        4 => {
            bad.fill(0);
            "all zero"
        }
        5 => {
            let s = Int::from_be(&c).add(n);
            if s.bytes() > k {
                return;
            }
            bad = s.to_be_len(k);
            "the modulus added"
        }
        _ => {
            bad.truncate(t.below(k as u64) as usize);
            "truncated"
        }
    };
    if bad == c {
        return;
    }
    cx.case(&[b"tamper", &n.to_be(), &bad]);
    cx.class(&format!("tampered: {what}"));
    let ctx = |g: &Vec<u8>| format!("n={} ciphertext {} ({what}) decrypted to {}", hex(&n.to_be()), hex(&bad), hex(g));
    cx.refuse(&format!("modified ciphertext ({what}) decrypts to a message"), ctx, || v::rsa_dec_msg(k2, &bad));
}
fn real_keys(i: u64, t: &mut Tape, cx: &mut Cx) {
    // ordinary two-prime keys with a full-size private exponent
    let bits = [521u64, 528, 536, 545][(i % 4) as usize];
    let pb = bits / 2 + 1;
    let (p, q) = loop {
        let (p, q) = (random_prime(t, pb), random_prime(t, bits - pb));
        if p != q && p.dec().gcd(&n128(65537)) == n128(1) && q.dec().gcd(&n128(65537)) == n128(1) && p.mul(&q).bits() == bits {
            break (p, q);
        }
    };
    let n = p.mul(&q);
    let e = n128(65537);
    let d = e.modinv(&p.dec().mul(&q.dec())).unwrap();
    let (Some(k1), Some(k2)) = (key(cx, &n, &e, false), key(cx, &n, &d, true)) else { return };
    let k = n.bytes();
    let ml = t.size(0, k - 66);
    let m = t.bytes(ml);
    cx.case(&[b"real", &n.to_be(), &m]);
    let ctx = || format!("two-prime key n={} d={} message {}", hex(&n.to_be()), hex(&d.to_be()), hex(&m));
    let Some(c) = cx.must("encrypt_message", ctx, || v::rsa_enc_msg(&k1, &m)) else { return };
    cx.check(c.len() == k, "ciphertext is not as long as the modulus", || format!("{}: {} bytes", ctx(), c.len()));
    if let Some(g) = cx.must("decrypt_message", ctx, || v::rsa_dec_msg(&k2, &c)) {
        cx.eq("decrypted message differs", &g, &m, ctx);
    }
    cx.class("two-prime keys with full-size d");
}

// ---------------------------------------------------------------------------------- C18

pub static C18: Prop = Prop {
    id: "C18",
    rule: "a case is an encoding request (label, message, k), checked against an independent RFC 8017 decoder and encoder, or a block offered to decoding (valid with arbitrary seed and label, or malformed in one chosen way: first byte, label hash, padding string, separator, length, random) judged by the independent decoder; also RSA ciphertexts modified after encryption; distinct by (label, block, k)",
    scenarios: &[
        Scenario::sweep("oaep-encode", 1200, 12000, oaep_enc_sweep),
        Scenario::sweep("oaep-decode", 2600, 26000, oaep_dec_sweep),
        Scenario::sweep("oaep-single", 256, 2560, oaep_single),
        Scenario::sweep("oaep-pairs", 300, 3000, oaep_pairs),
        Scenario::sweep("oaep-short", 140 * 6, 140 * 60, oaep_short),
        Scenario::sweep("oaep-large", 10, 60, oaep_large),
        Scenario::heavy_plain("oaep-huge", 1, 2, oaep_huge),
        Scenario::sweep("oaep-tamper", 80, 800, tamper_sweep),
        Scenario::random("oaep-enc-random", 3, oaep_enc_random),
        Scenario::random("oaep-dec-random", 8, oaep_dec_random),
    ],
    cap: 12 << 30,
};
fn enc_one(cx: &mut Cx, label: &[u8], m: &[u8], k: usize) {
    cx.case(&[b"enc", label, m, &(k as u64).to_le_bytes()]);
    let ctx = || format!("OAEP encode label {} message ({} bytes) {} k={k}", hex(label), m.len(), hex(m));
    if k < m.len() + 66 {
        cx.class("too short k offered");
        cx.refuse("encoding into too few bytes", |o: &Vec<u8>| format!("{}: gave {} bytes", ctx(), o.len()), || v::oaep_encode(label, m, k));
        return;
    }
    let Some(em) = cx.must("OAEP encode", ctx, || v::oaep_encode(label, m, k)) else { return };
    if em.len() != k {
        cx.viol("encoded block is not k bytes", format!("{}: {} bytes", ctx(), em.len()));
        return;
    }
    let (seed, _) = oaep::unmask(&em);
    let want = oaep::encode(label, m, k, &seed);
    cx.eq("encoded block is not a valid OAEP encoding", &em, &want, ctx);
    match cx.must("OAEP decode", ctx, || v::oaep_decode(label, &em, k)) {
        Some(Ok(g)) => {
            cx.eq("decode(encode(m)) != m", &g, m, ctx);
        }
        Some(Err(e)) => cx.viol("decode(encode(m)) is an error", format!("{}: {e}", ctx())),
        None => {}
    }
    cx.class("encodings checked");
}
fn dec_one(cx: &mut Cx, label: &[u8], em: &[u8], k: usize, what: &str) {
    cx.case(&[b"dec", label, em, &(k as u64).to_le_bytes()]);
    let want = oaep::decode(label, em, k);
    let ctx = || format!("OAEP decode ({what}) label {} k={k} block ({} bytes) {}", hex(label), em.len(), hex(em));
    cx.class(&format!("decode: {what}"));
    let sig = if em.len() != k { "length mismatch" } else if k < 66 { "k below 66" } else { "block" };
    match cx.must(&format!("OAEP decode ({sig})"), ctx, || v::oaep_decode(label, em, k)) {
        None => {}
        Some(Ok(g)) => match want {
            Some(w) => {
                cx.eq("decoded message differs", &g, &w, ctx);
            }
            None => cx.viol(&format!("invalid encoding accepted: {what}"), format!("{}: gave {}", ctx(), hex(&g))),
        },
        Some(Err(e)) => {
            if let Some(w) = want {
                cx.viol("valid encoding rejected", format!("{}: {e}; message {}", ctx(), hex(&w)));
            }
        }
    }
}
fn oaep_enc_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    let k = 66 + (i % 400) as usize;
    let l = match i / 400 {
        0 => k - 66,
        1 => 0,
        _ => t.size(0, k - 66),
    };
    let m = t.bytes(l);
    let label = t.blob(0, if i % 9 == 0 { 300 } else { 20 });
    enc_one(cx, &label, &m, k);
    if i % 3 == 0 {
        // one byte too few, and much too few
        enc_one(cx, &label, &m, l + 65);
        let s = t.range(0, l + 65);
        enc_one(cx, &label, &m, s);
    }
}
fn dec_case(cx: &mut Cx, t: &mut Tape, kmax: usize) {
    let k = t.size(66, kmax);
    let l = if t.chance(1, 5) { k - 66 } else { t.size(0, k - 66) };
    let m = t.bytes(l);
    let label = t.blob(0, 40);
    let seed: [u8; 32] = t.arr();
    let mut db = hash::sha256(&label);
    let ps = k - 33 - 32 - 1 - l;
    db.resize(32 + ps, 0);
    db.push(1);
    db.extend_from_slice(&m);
    let mut first = 0u8;
    let what = match t.below(16) {
        0 => {
            first = 1 + t.below(255) as u8;
            "first byte not zero"
        }
        1 => {
            let p = t.below(32) as usize;
            db[p] ^= 1 << t.below(8);
            "label hash changed"
        }
        2 if ps > 0 => {
            let p = 32 + t.below(ps as u64) as usize;
            db[p] = 2 + t.below(254) as u8;
            "garbage in the padding string"
        }
        3 => {
            db[32 + ps] = 2 + t.below(254) as u8;
            "separator is not 1"
        }
        4 => {
            db[32..].fill(0);
            "no separator"
        }
        5 => {
            db[32 + ps] = 0;
            "separator removed"
        }
        6 => {
            let r = t.seeded(db.len() - 32);
            db[32..].copy_from_slice(&r);
            "random after the label hash"
        }
        7 => {
            db = t.seeded(k - 33);
            "random data block"
        }
        8 => {
            // message made of 0 and 1 bytes only
            for b in db[33 + ps..].iter_mut() {
                *b &= 1;
            }
            "valid, message of zeros and ones"
        }
        9 => {
            db[k - 34] = 1;
            "separator or data byte 1 at the very end"
        }
        _ => "valid",
    };
    let em = oaep::mask(&seed, &db, first);
    match t.below(10) {
        0 => {
            let mut other = label.clone();
            other.push(t.byte());
            dec_one(cx, &other, &em, k, "other label");
        }
        1 => {
            let mut e = em.clone();
            let p = t.below(k as u64) as usize;
            e[p] ^= 1 << t.below(8);
            dec_one(cx, &label, &e, k, "one bit flipped");
        }
        2 => {
            let k2 = *t.pick(&[k - 1, k + 1, k + 32, 2 * k, k / 2, 0]);
            dec_one(cx, &label, &em, k2, "block length differs from k");
        }
        3 => {
            let mut e = em.clone();
            e.truncate(t.below(k as u64) as usize);
            let kk = if t.chance(1, 2) { k } else { e.len() };
            dec_one(cx, &label, &e, kk, "truncated");
        }
        4 => {
            let mut e = em.clone();
            let x = t.blob(1, 40);
            e.extend(x);
            let kk = if t.chance(1, 2) { k } else { e.len() };
            dec_one(cx, &label, &e, kk, "extended");
        }
        _ => dec_one(cx, &label, &em, k, what),
    }
    cx.sample(211, || format!("decode {what} label {} block {}", hex(&label), hex(&em)));
}
fn oaep_dec_sweep(_: u64, t: &mut Tape, cx: &mut Cx) {
    dec_case(cx, t, 300);
}
/// every value of every single byte that has only one good value
fn oaep_single(i: u64, t: &mut Tape, cx: &mut Cx) {
    let val = i as u8;
    let k = *t.pick(&[66usize, 67, 68, 70, 96, 97, 98, 99, 128, 129, 200]);
    let l = if t.chance(1, 3) { 0 } else { t.range(0, k - 66) };
    let m = t.seeded(l);
    let label = t.blob(0, 12);
    let lh = hash::sha256(&label);
    let ps = k - 66 - l;
    let mut db = lh.clone();
    db.resize(32 + ps, 0);
    db.push(1);
    db.extend_from_slice(&m);
    let seed: [u8; 32] = t.seeded(32).try_into().unwrap();
    if val != 0 {
        dec_one(cx, &label, &oaep::mask(&seed, &db, val), k, "first byte not zero");
    }
    // the label hash: one byte differs by val
    for p in [0, 1, 15, 16, 30, 31, (i / 8 % 32) as usize] {
        let mut d = db.clone();
        d[p] ^= val;
        dec_one(cx, &label, &oaep::mask(&seed, &d, 0), k, "one byte of the label hash");
    }
    // the padding string: its first, second, middle and last byte; the separator
    for p in [32, 33, 32 + ps / 2, (31 + ps).max(32), 32 + ps] {
        if p < db.len() {
            let mut d = db.clone();
            d[p] = val;
            dec_one(cx, &label, &oaep::mask(&seed, &d, 0), k, "one byte of the padding string");
        }
    }
    // everything after the label hash has this value, then 1
    let mut d = db.clone();
    d[32..32 + ps].fill(val);
    dec_one(cx, &label, &oaep::mask(&seed, &d, 0), k, "padding string of one value");
    d[32 + ps..].fill(val);
    dec_one(cx, &label, &oaep::mask(&seed, &d, 0), k, "data block of one value");
    // a seed of one value
    dec_one(cx, &label, &oaep::mask(&[val; 32], &db, 0), k, "seed of one value");
    // masked parts of one value: the oracle says what they unmask to
    let mut e = oaep::mask(&seed, &db, 0);
    e[1..33].fill(val);
    dec_one(cx, &label, &e, k, "masked seed of one value");
    let mut e = oaep::mask(&seed, &db, 0);
    e[33..].fill(val);
    dec_one(cx, &label, &e, k, "masked data of one value");
}
/// two or more wrong bytes whose differences cancel in a sum, a difference or an exclusive or
fn oaep_pairs(i: u64, t: &mut Tape, cx: &mut Cx) {
    let k = t.range(66, 140);
    let l = t.range(0, k - 66);
    let m = t.seeded(l);
    let label = t.blob(0, 12);
    let seed: [u8; 32] = t.seeded(32).try_into().unwrap();
    let lh = hash::sha256(&label);
    let ps = k - 66 - l;
    let mut db = lh.clone();
    db.resize(32 + ps, 0);
    db.push(1);
    db.extend_from_slice(&m);
    let end = if i % 3 == 0 { 32 } else { 32 + ps };
    let start = if i % 3 == 1 && ps > 1 { 32 } else { 0 };
    for kind in 0..7 {
        let mut d = db.clone();
        let p = t.range(start, end - 1);
        let mut q = t.range(start, end - 1);
        if q == p {
            q = if p + 1 < end { p + 1 } else { p - 1 };
        }
        let x = 1 + t.below(255) as u8;
        match kind {
            0 => {
                d[p] ^= x;
                d[q] ^= x;
            }
            1 => {
                d[p] = d[p].wrapping_add(x);
                d[q] = d[q].wrapping_sub(x);
            }
            2 => d.swap(p, q),
            3 => d[..32].reverse(),
            4 => d[..32].rotate_left(1 + x as usize % 31),
            5 => d[..32].iter_mut().for_each(|b| *b = !*b),
            // only the first or only the second half of the label hash is right
            _ => {
                let a = if x & 1 == 0 { 0 } else { 16 };
                for b in &mut d[a..a + 16] {
                    *b = t.byte();
                }
            }
        }
        dec_one(cx, &label, &oaep::mask(&seed, &d, 0), k, "several bytes changed");
    }
}
fn oaep_short(i: u64, t: &mut Tape, cx: &mut Cx) {
    // every short block length, with k equal and different, first byte zero or not
    let l = (i % 140) as usize;
    let mut em = t.seeded(l);
    if l > 0 && i / 140 % 3 != 0 {
        em[0] = 0;
    }
    if i / 140 % 3 == 2 && l >= 33 {
        // as valid as its length allows: label hash (cut short if need be), zeros, 1
        let mut db = hash::sha256(b"");
        db.resize(l - 33, 0);
        if l > 65 {
            db[l - 34] = 1;
        }
        em = oaep::mask(&t.seeded(32).try_into().unwrap(), &db, 0);
    }
    dec_one(cx, b"", &em, l, "short block");
    let k = *t.pick(&[0usize, 1, 32, 33, 34, 65, 66, 67, 100, 128, 256]);
    dec_one(cx, b"", &em, k, "block length differs from k");
    enc_one(cx, b"", &[], l);
    let mm = t.blob(0, 80);
    enc_one(cx, b"x", &mm, l);
}
/// a block whose mask needs more than 2^24 digests
fn oaep_huge(_: u64, t: &mut Tape, cx: &mut Cx) {
    let k = 33 + 32 * ((1 << 24) + 3) + t.range(0, 40);
    let m = t.seeded(100);
    cx.case(&[b"huge", &(k as u64).to_le_bytes(), &m]);
    let ctx = || format!("block of {k} bytes, message {}", hex(&m));
    let Some(em) = cx.must("OAEP encode", ctx, || v::oaep_encode(b"L", &m, k)) else { return };
    if em.len() != k || em[0] != 0 {
        cx.viol("encoded block has the wrong length or first byte", format!("{}: {} bytes", ctx(), em.len()));
        return;
    }
    let (_, db) = oaep::unmask(&em);
    let lh = hash::sha256(b"L");
    let sep = k - 33 - 101;
    let good = db[..32] == lh[..] && db[32..sep].iter().all(|&b| b == 0) && db[sep] == 1 && db[sep + 1..] == m[..];
    cx.check(good, "encoded block is not a valid OAEP encoding of the message", ctx);
    drop(db);
    if let Some(r) = cx.must("OAEP decode", ctx, || v::oaep_decode(b"L", &em, k)) {
        cx.check(r.as_deref() == Ok(&m[..]), "valid encoding not decoded to its message", ctx);
    }
    cx.class("blocks above 512 MiB");
}
fn oaep_large(i: u64, t: &mut Tape, cx: &mut Cx) {
    // mask generator counters beyond one and two bytes
    let k = match i {
        0 => 33 + 32 * 65537 + 5,
        1 => 33 + 32 * 256 + 1,
        _ => t.range(8200, 40000),
    };
    let l = t.range(0, k - 66);
    let m = t.seeded(l);
    let label = t.seeded(if i % 2 == 0 { 0 } else { 5000 });
    enc_one(cx, &label, &m, k);
    let seed: [u8; 32] = t.seeded(32).try_into().unwrap();
    let em = oaep::encode(&label, &m, k, &seed);
    dec_one(cx, &label, &em, k, "valid, large");
    cx.class("blocks above 8 KiB");
}
fn oaep_enc_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let l = t.size(0, 300);
    let m = t.bytes(l);
    let label = t.blob(0, 100);
    let k = if t.chance(1, 6) { t.size(0, l + 66) } else { l + 66 + t.size(0, 300) };
    enc_one(cx, &label, &m, k);
}
fn oaep_dec_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    if t.chance(1, 6) {
        let em = t.blob(0, 200);
        let label = t.blob(0, 10);
        let k = if t.chance(1, 2) { em.len() } else { t.size(0, 300) };
        dec_one(cx, &label, &em, k, "arbitrary bytes");
    } else {
        dec_case(cx, t, 600);
    }
}

// ---------------------------------------------------------------------------------- C25

pub static C25: Prop = Prop {
    id: "C25",
    rule: "a case is a (message, label, k) padded twice, or a (key, message) encrypted twice, in one process and in two fresh processes; the seeds recovered by an independent decoder must all differ; distinct by (message, k)",
    scenarios: &[
        Scenario::sweep("seed-twice", 400, 4000, seed_twice),
        Scenario::sweep("seed-process", 4, 16, seed_process),
    ],
    cap: 1 << 30,
};
const KNOWN_SEED: [u8; 32] = [42; 32];
fn judge_seeds(cx: &mut Cx, a: &[u8; 32], b: &[u8; 32], ctx: String) {
    if a != b {
        cx.class("pairs with different seeds");
        return;
    }
    cx.class("pairs with equal seeds");
    if *a == KNOWN_SEED {
        cx.viol("constant OAEP seed 42..42", ctx);
    } else {
        cx.viol("OAEP seed reused", format!("{ctx}: seed {}", hex(a)));
    }
}
fn seed_twice(i: u64, t: &mut Tape, cx: &mut Cx) {
    let l = t.size(0, 200);
    let m = t.bytes(l);
    let label = t.blob(0, 10);
    let k = l + 66 + t.size(0, 200);
    cx.case(&[&m, &label, &(k as u64).to_le_bytes()]);
    let ctx = || format!("label {} message {} k={k}", hex(&label), hex(&m));
    let (Some(a), Some(b)) = (cx.must("OAEP encode", ctx, || v::oaep_encode(&label, &m, k)), cx.must("OAEP encode", ctx, || v::oaep_encode(&label, &m, k))) else { return };
    if a.len() < 66 || b.len() < 66 {
        return;
    }
    judge_seeds(cx, &oaep::unmask(&a).0, &oaep::unmask(&b).0, ctx());
    if i % 20 == 0 {
        let (n, e, d) = smooth_key(t, 560);
        if let (Some(k1), Some(k2)) = (key(cx, &n, &e, false), key(cx, &n, &d, true)) {
            let m = t.blob(0, n.bytes().saturating_sub(66));
            if n.bytes() < 66 {
                return;
            }
            let (Some(a), Some(b)) = (cx.must("encrypt_message", ctx, || v::rsa_enc_msg(&k1, &m)), cx.must("encrypt_message", ctx, || v::rsa_enc_msg(&k1, &m))) else { return };
            if a == b {
                let _ = k2;
                let em = Int::from_be(&a).modpow(&d, &n).to_be_len(n.bytes());
                let s = oaep::unmask(&em).0;
                judge_seeds(cx, &s, &s, format!("RSA n={} message {}", hex(&n.to_be()), hex(&m)));
            } else {
                cx.class("pairs with different seeds");
            }
        }
    }
    cx.sample(97, ctx);
}
/// prints the seed of the first encoding made by a fresh process
pub fn seed_probe() {
    let em = v::oaep_encode(b"", b"probe", 100);
    println!("{}", hex(&oaep::unmask(&em).0));
}
fn seed_process(_: u64, _t: &mut Tape, cx: &mut Cx) {
    let _ = &cx;
    #[cfg(not(miri))]
    {
        let run = || {
            let exe = std::env::current_exe().expect("exe");
            let o = std::process::Command::new(exe).arg("seed-probe").output().expect("spawn");
            let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
            let v: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
            <[u8; 32]>::try_from(v)
        };
        if let (Ok(a), Ok(b)) = (run(), run()) {
            cx.case(&[b"process", &cx.evals.to_le_bytes()]);
            judge_seeds(cx, &a, &b, "first encodings of two fresh processes".into());
        }
    }
}
