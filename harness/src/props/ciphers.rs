//! C01 AES, C02 RC2, C03 RC4, C04 RC5.
use crate::engine::*;
use crate::oracle::{aes, rc};
use vpcalls as v;

pub static C01: Prop = Prop {
    id: "C01",
    rule: "a case is a key (16/24/32 bytes, as bytes or words) and a sequence of blocks run through one cipher object in both directions, compared with an independent FIPS-197 model; keys and blocks are random, structured, or solved for so that a chosen round key or round state has a chosen value; distinct by (key, block)",
    scenarios: &[
        Scenario::sweep("aes-state", 3 * 15 * 256, 3 * 15 * 256 * 4, aes_state),
        Scenario::sweep("aes-pattern", 3 * 15 * 40, 3 * 15 * 400, aes_pattern),
        Scenario::sweep("aes-schedule", 3 * 60 * 64, 3 * 60 * 256, aes_schedule),
        Scenario::sweep("aes-bits", 16 * 8 + (16 + 24 + 32) * 8, 16 * 8 + (16 + 24 + 32) * 8, aes_bits),
        Scenario::random("aes-random", 10, aes_random),
    ],
    cap: 1 << 30,
};

fn aes_pair(cx: &mut Cx, key: &[u8], words: bool) -> Option<(vpcalls::cryptography::aes::Aes, aes::Ref)> {
    let w: Vec<u64> = key.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
    let c = cx.must("aes key setup", || format!("key {}", hex(key)), || if words { v::aes_words(&w) } else { v::aes_bytes(key) })?;
    Some((c, aes::Ref::new(key)))
}
fn aes_one(cx: &mut Cx, c: &vpcalls::cryptography::aes::Aes, r: &aes::Ref, key: &[u8], b: [u8; 16]) {
    cx.case(&[key, &b]);
    let ctx = || format!("AES-{} key {} block {}", key.len() * 8, hex(key), hex(&b));
    if let Some(e) = cx.must("aes encrypt", ctx, || v::aes_enc(c, b)) {
        cx.eq("aes encryption differs from FIPS-197", &e, &r.enc(b), ctx);
        if let Some(d) = cx.must("aes decrypt", ctx, || v::aes_dec(c, e)) {
            cx.eq("aes decrypt(encrypt(x)) != x", &d, &b, ctx);
        }
    }
    if let Some(d) = cx.must("aes decrypt", ctx, || v::aes_dec(c, b)) {
        cx.eq("aes decryption differs from FIPS-197", &d, &r.dec(b), ctx);
        if let Some(e) = cx.must("aes encrypt", ctx, || v::aes_enc(c, d)) {
            cx.eq("aes encrypt(decrypt(x)) != x", &e, &b, ctx);
        }
    }
    cx.class(["aes-128", "aes-192", "aes-256"][key.len() / 8 - 2]);
}
fn aes_state(i: u64, t: &mut Tape, cx: &mut Cx) {
    let ks = (i % 3) as usize;
    let r = (i / 3 % 15) as usize;
    let val = (i / 45 % 256) as u8;
    let key = t.bytes([16, 24, 32][ks]);
    let words = t.chance(1, 2);
    let Some((c, rf)) = aes_pair(cx, &key, words) else { return };
    let round = r.clamp(1, rf.nr());
    // the state entering this round has every byte equal to val, or one byte equal to val
    let mut st = [val; 16];
    aes_one(cx, &c, &rf, &key, rf.plaintext_for(round, st));
    st = t.arr();
    let p = t.below(16) as usize;
    st[p] = val;
    aes_one(cx, &c, &rf, &key, rf.plaintext_for(round, st));
    cx.class_n("states of a chosen round set to a chosen value", 2);
}
/// A state with structure: equal or zero columns and rows, nearly equal columns, few values.
fn patterned(t: &mut Tape) -> [u8; 16] {
    let mut s: [u8; 16] = t.arr();
    for _ in 0..t.range(1, 3) {
        let (a, b) = (t.below(4) as usize, t.below(4) as usize);
        let x = t.byte();
        match t.below(7) {
            0 => {
                for k in 0..4 {
                    s[4 * a + k] = s[4 * b + k];
                }
            }
            1 => {
                // a column equal to another but for one byte
                for k in 0..4 {
                    s[4 * a + k] = s[4 * b + k];
                }
                s[4 * a + t.below(4) as usize] ^= x | 1;
            }
            2 => s[4 * a..4 * a + 4].fill(x),
            3 => (0..4).for_each(|c| s[4 * c + a] = x),
            4 => s[4 * a..4 * a + 4].fill(0),
            5 => {
                for k in 0..4 {
                    s[4 * a + k] = s[4 * b + (k + 1) % 4];
                }
            }
            _ => s[4 * a + 2..4 * a + 4].fill(x),
        }
    }
    s
}
fn aes_pattern(i: u64, t: &mut Tape, cx: &mut Cx) {
    let ks = (i % 3) as usize;
    let r = (i / 3 % 15) as usize;
    let key = t.bytes([16, 24, 32][ks]);
    let words = t.chance(1, 2);
    let Some((c, rf)) = aes_pair(cx, &key, words) else { return };
    for _ in 0..4 {
        let st = patterned(t);
        let r = r.clamp(1, rf.nr());
        aes_one(cx, &c, &rf, &key, rf.plaintext_for(r, st));
        aes_one(cx, &c, &rf, &key, rf.plaintext_for_mix(r, false, st));
        aes_one(cx, &c, &rf, &key, rf.plaintext_for_mix(r, true, st));
    }
    cx.class_n("states of a chosen round given structure", 12);
}
fn aes_schedule(i: u64, t: &mut Tape, cx: &mut Cx) {
    let nk = [4, 6, 8][(i % 3) as usize];
    let n = 4 * (nk + 7);
    let at = (i / 3 % 60) as usize % (n - nk + 1);
    let k = i / 180;
    let words: Vec<u8> = if k < 20 {
        let p = [0x00u8, 0xff, 0x52, 0x63, 0x01, 0x80, 0x7f, 0x1b, 0x8d, 0x36][(k % 10) as usize];
        let mut w = vec![p; 4 * nk];
        if k >= 10 {
            let x = t.bytes(4 * nk - 4);
            w[..4 * nk - 4].copy_from_slice(&x);
        }
        w
    } else {
        t.bytes(4 * nk)
    };
    let key = aes::key_with_schedule(nk, at, &words);
    let w = t.chance(1, 2);
    let Some((c, rf)) = aes_pair(cx, &key, w) else { return };
    let b = t.arr();
    aes_one(cx, &c, &rf, &key, b);
    cx.class("keys solved for a chosen schedule word");
}
fn aes_bits(i: u64, t: &mut Tape, cx: &mut Cx) {
    let i = i as usize;
    if i < 128 {
        let mut b = [0u8; 16];
        b[i / 8] = 0x80 >> (i % 8);
        for n in [16, 24, 32] {
            for f in [0u8, 0xff] {
                let key = vec![f; n];
                let Some((c, r)) = aes_pair(cx, &key, f == 0) else { continue };
                aes_one(cx, &c, &r, &key, b);
                aes_one(cx, &c, &r, &key, b.map(|x| !x));
            }
        }
    } else {
        let j = i - 128;
        let (n, bit) = if j < 128 { (16, j) } else if j < 128 + 192 { (24, j - 128) } else { (32, j - 320) };
        let mut key = vec![0u8; n];
        key[bit / 8] = 0x80 >> (bit % 8);
        for inv in [false, true] {
            let k: Vec<u8> = key.iter().map(|x| if inv { !x } else { *x }).collect();
            for w in [false, true] {
                let Some((c, r)) = aes_pair(cx, &k, w) else { continue };
                aes_one(cx, &c, &r, &k, [0; 16]);
                let b = t.arr();
                aes_one(cx, &c, &r, &k, b);
            }
        }
    }
}
fn aes_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = *t.pick(&[16, 24, 32]);
    let words = t.chance(1, 2);
    let key = t.bytes(n);
    let Some((c, r)) = aes_pair(cx, &key, words) else { return };
    let uses = t.size(1, 12);
    let mut prev: [u8; 16] = t.arr();
    for _ in 0..uses {
        let b = match t.below(4) {
            0 => prev,
            1 => r.enc(prev),
            2 => key[..16].try_into().unwrap(),
            _ => t.arr(),
        };
        aes_one(cx, &c, &r, &key, b);
        prev = b;
    }
    cx.class_n("uses of one object", uses as u64);
    cx.sample(97, || format!("AES-{} key={} last block={}", n * 8, hex(&key), hex(&prev)));
}

// ---------------------------------------------------------------------------------- RC2

pub static C02: Prop = Prop {
    id: "C02",
    rule: "a case is (key of 1..128 bytes, effective bits 1..1024, block) in both directions against an independent RFC 2268 model; the whole 128 x 1024 parameter grid is enumerated with random keys and blocks, then keys, blocks and mid-round states are varied; distinct by (key, bits, block)",
    scenarios: &[
        Scenario::sweep("rc2-grid", 128 * 1024, 128 * 1024 * 4, rc2_grid),
        Scenario::random("rc2-random", 10, rc2_random),
    ],
    cap: 1 << 30,
};
fn rc2_one(cx: &mut Cx, c: &v::Rc2, r: &rc::Rc2, key: &[u8], bits: usize, b: [u8; 8]) {
    cx.case(&[key, &(bits as u16).to_le_bytes(), &b]);
    let ctx = || format!("RC2 key {} effective bits {bits} block {}", hex(key), hex(&b));
    if let Some(e) = cx.must("rc2 encrypt", ctx, || v::rc2_enc(c, b)) {
        cx.eq("rc2 encryption differs from RFC 2268", &e, &r.enc(b), ctx);
        if let Some(d) = cx.must("rc2 decrypt", ctx, || v::rc2_dec(c, e)) {
            cx.eq("rc2 decrypt(encrypt(x)) != x", &d, &b, ctx);
        }
    }
    if let Some(d) = cx.must("rc2 decrypt", ctx, || v::rc2_dec(c, b)) {
        cx.eq("rc2 decryption differs from RFC 2268", &d, &r.dec(b), ctx);
    }
}
fn rc2_new(cx: &mut Cx, key: &[u8], bits: usize) -> Option<(v::Rc2, rc::Rc2)> {
    let c = cx.must("rc2 key setup", || format!("key {} effective bits {bits}", hex(key)), || v::rc2_new(key, bits as u16))?;
    Some((c, rc::Rc2::new(key, bits)))
}
fn rc2_grid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = (i % 128) as usize + 1;
    let bits = (i / 128 % 1024) as usize + 1;
    let key = t.bytes(len);
    let Some((c, r)) = rc2_new(cx, &key, bits) else { return };
    let b = t.arr();
    rc2_one(cx, &c, &r, &key, bits, b);
    cx.class("parameter grid points");
}
fn rc2_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    // (a full-size key with all its bits effective is used almost directly as round keys)
    let key = if t.chance(1, 6) { t.blob(128, 128) } else { t.blob(1, 128) };
    let bits = if t.chance(if key.len() == 128 { 3 } else { 1 }, 4) { (8 * key.len()).min(1024) } else { t.size(1, 1024) };
    let Some((c, r)) = rc2_new(cx, &key, bits) else { return };
    for _ in 0..t.range(1, 6) {
        let mut b: [u8; 8] = t.arr();
        if t.chance(1, 2) {
            for k in 0..4 {
                let w = rare32(t, &[t_word(&b)]);
                b[2 * k..2 * k + 2].copy_from_slice(&(w as u16).to_le_bytes());
            }
        }
        if t.chance(1, 2) {
            // let b be the state after a chosen mixing round
            b = r.dec_from(b, t.range(1, 16));
            cx.class("mid-round states chosen");
        }
        rc2_one(cx, &c, &r, &key, bits, b);
    }
    cx.class(if bits > 8 * key.len() { "effective bits above key bits" } else if bits % 8 == 0 { "whole-byte effective size" } else { "partial-byte effective size" });
    cx.sample(101, || format!("RC2 key={} bits={bits}", hex(&key)));
}

// ---------------------------------------------------------------------------------- RC4

pub static C03: Prop = Prop {
    id: "C03",
    rule: "a case is a key of 1..256 bytes and a stream or message length, compared byte for byte with an independent RC4 model; every key length is enumerated, streams run past many index wrap-arounds, one long stream per shard; distinct by (key, length)",
    scenarios: &[
        Scenario::sweep("rc4-lengths", 256 * 8, 256 * 64, rc4_len),
        Scenario::sweep("rc4-long", 16, 64, rc4_long),
        Scenario::heavy_plain("rc4-far", 1, 4, rc4_far),
        Scenario::random("rc4-random", 10, rc4_random),
        Scenario::random("rc4-walk", 6, rc4_walk),
    ],
    cap: 4 << 30,
};
fn rc4_check(cx: &mut Cx, key: &[u8], n: usize, data: &[u8]) {
    cx.case(&[key, &(n as u64).to_le_bytes(), data]);
    let ctx = || format!("RC4 key ({} bytes) {}, {n} stream bytes, {} data bytes", key.len(), hex(key), data.len());
    let want = rc::Rc4::stream(key, n.max(data.len()));
    if let Some(s) = cx.must("rc4 keystream", ctx, || v::rc4_stream(key, n)) {
        if s != want[..n] {
            let at = (0..n).find(|&i| s.get(i) != want.get(i)).unwrap_or(n);
            cx.viol("rc4 keystream differs from the standard", format!("{}: first difference at offset {at}", ctx()));
        }
        cx.class_n("keystream bytes compared", n as u64);
    }
    let x: Vec<u8> = data.iter().zip(&want).map(|(a, b)| a ^ b).collect();
    if let Some(e) = cx.must("rc4 encrypt", ctx, || v::rc4_encrypt(key, data)) {
        cx.eq("rc4 encryption is not data XOR keystream", &e, &x, ctx);
    }
    if let Some(d) = cx.must("rc4 decrypt", ctx, || v::rc4_decrypt(key, &x)) {
        cx.eq("rc4 decryption does not give back the data", &d, data, ctx);
    }
}
fn rc4_len(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = (i % 256) as usize + 1;
    let key = t.bytes(len);
    let data = t.blob(0, 600);
    let n = t.range(256, 900);
    rc4_check(cx, &key, n, &data);
    cx.class("key lengths enumerated");
}
fn rc4_long(i: u64, t: &mut Tape, cx: &mut Cx) {
    let key = t.blob(1, 256);
    let n = if i % 16 == 0 { 1 << 24 } else { 200_000 + t.below(200_000) as usize };
    let data = t.seeded(n.min(300_000));
    rc4_check(cx, &key, n, &data);
}
/// past 2^32 keystream bytes, every one of them compared
fn rc4_far(_: u64, t: &mut Tape, cx: &mut Cx) {
    let key = t.blob(1, 256);
    cx.case(&[b"far", &key]);
    let ctx = || format!("RC4 key {}", hex(&key));
    let mut model = rc::Rc4::new(&key);
    let Some(mut ks) = cx.must("RC4 key", ctx, || v::Rc4::new(&key)) else { return };
    let chunk = 1 << 20;
    let (mut got, mut want) = (vec![], vec![0u8; chunk]);
    for c in 0..(1u64 << 12) + 1 {
        for w in &mut want {
            *w = model.byte();
        }
        if cx.must("RC4 keystream", ctx, || v::rc4_next(&mut ks, chunk, &mut got)).is_none() {
            return;
        }
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            cx.viol("RC4 keystream is wrong", format!("{} at offset {}", ctx(), c * chunk as u64 + k as u64));
            return;
        }
    }
    cx.class("keystreams read past 2^32 bytes");
}
fn rc4_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let key = t.blob(1, 256);
    let data = t.blob(0, 1500);
    let n = t.size(0, 2000);
    rc4_check(cx, &key, n, &data);
    cx.sample(97, || format!("RC4 key={} n={n} data={}", hex(&key), hex(&data)));
}

fn rc4_walk(_: u64, t: &mut Tape, cx: &mut Cx) {
    let key = t.blob(1, 256);
    let steps: Vec<(u8, usize)> = (0..t.range(1, 10)).map(|_| (t.below(8) as u8, if t.chance(1, 4) { t.size(0, 3000) } else { t.range(0, 40) })).collect();
    let tail = t.blob(0, 80);
    let enc: Vec<u8> = steps.iter().flat_map(|s| [s.0, s.1 as u8, (s.1 >> 8) as u8]).collect();
    cx.case(&[&key, &enc, &tail]);
    let ctx = || format!("RC4 key ({} bytes) {}, reads (kind, size) {steps:?}, then {} data bytes", key.len(), hex(&key), tail.len());
    let Some((got, upper, out, at)) = cx.must("rc4 reads", ctx, || v::rc4_walk(&key, &steps, &tail)) else { return };
    let want = rc::Rc4::stream(&key, at as usize + tail.len() + 1);
    if let Some(&(o, b)) = got.iter().find(|x| want[x.0 as usize] != x.1) {
        cx.viol("rc4 keystream differs from the standard when read with other iterator methods", format!("{}: offset {o}: got {b:02x} want {:02x}", ctx(), want[o as usize]));
        return;
    }
    if upper.is_some_and(|u| u < at + tail.len() as u64) {
        cx.viol("rc4 keystream ends", format!("{}: an end at offset {upper:?} was announced or reached", ctx()));
        return;
    }
    let x: Vec<u8> = tail.iter().zip(&want[at as usize..]).map(|(a, b)| a ^ b).collect();
    cx.eq("rc4 encryption after reading is not data XOR the rest of the keystream", &out, &x, ctx);
    cx.class_n("keystream bytes read by other iterator methods", got.len() as u64);
}

// ---------------------------------------------------------------------------------- RC5

pub static C04: Prop = Prop {
    id: "C04",
    rule: "a case is (key of 0..255 bytes, rounds 0..255, block) in both directions against an independent RC5-32 model; the whole 256 x 256 grid is enumerated; keys of 256 and more bytes must be refused; distinct by (key, rounds, block)",
    scenarios: &[
        Scenario::sweep("rc5-grid", 65536, 65536 * 8, rc5_grid),
        Scenario::sweep("rc5-too-long", 400, 2000, rc5_long),
        Scenario::random("rc5-random", 10, rc5_random),
    ],
    cap: 1 << 30,
};
fn rc5_new(cx: &mut Cx, key: &[u8], r: usize) -> Option<(v::Rc5, rc::Rc5)> {
    let sig = if key.is_empty() { "rc5 key setup (empty key)" } else { "rc5 key setup" };
    let c = cx.must(sig, || format!("key ({} bytes) {} rounds {r}", key.len(), hex(key)), || v::rc5_new(key, r as u8))?;
    Some((c, rc::Rc5::new(key, r)))
}
fn rc5_one(cx: &mut Cx, c: &v::Rc5, rf: &rc::Rc5, key: &[u8], r: usize, b: [u8; 8]) {
    cx.case(&[key, &[r as u8], &b]);
    let ctx = || format!("RC5 key ({} bytes) {} rounds {r} block {}", key.len(), hex(key), hex(&b));
    if let Some(e) = cx.must("rc5 encrypt", ctx, || v::rc5_enc(c, b)) {
        cx.eq("rc5 encryption differs from the specification", &e, &rf.enc(b), ctx);
        if let Some(d) = cx.must("rc5 decrypt", ctx, || v::rc5_dec(c, e)) {
            cx.eq("rc5 decrypt(encrypt(x)) != x", &d, &b, ctx);
        }
    }
    if let Some(d) = cx.must("rc5 decrypt", ctx, || v::rc5_dec(c, b)) {
        cx.eq("rc5 decryption differs from the specification", &d, &rf.dec(b), ctx);
    }
}
fn rc5_grid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = (i % 256) as usize;
    let r = (i / 256 % 256) as usize;
    let key = t.bytes(len);
    let Some((c, rf)) = rc5_new(cx, &key, r) else { return };
    for _ in 0..2 {
        let b = t.arr();
        rc5_one(cx, &c, &rf, &key, r, b);
    }
    cx.class("parameter grid points");
}
fn rc5_long(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = match i {
        0..=99 => 256 + i as usize,
        100..=199 => 256 * (i as usize - 98) + (i % 3) as usize,
        200..=230 => 65536 + i as usize - 200,
        _ => t.size(256, 70000),
    };
    let key = t.seeded(len);
    let r = t.byte();
    cx.case(&[&(len as u64).to_le_bytes(), &[r]]);
    cx.refuse("rc5 key longer than 255 bytes", |_| format!("key of {len} bytes, {r} rounds accepted"), || v::rc5_new(&key, r));
    cx.class("over-long keys offered");
}
fn t_word(b: &[u8; 8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn rare32(t: &mut Tape, seen: &[u32]) -> u32 {
    let x = seen[t.below(seen.len() as u64) as usize];
    match t.below(8) {
        0 | 1 => 0,
        2 => u32::MAX,
        3 => 1 << t.below(32),
        4 => x,
        5 => !x,
        6 => x.wrapping_neg(),
        _ => t.u64() as u32,
    }
}
/// a key that makes the two running words of the first key-mixing pass take rare values
fn rc5_solved_key(t: &mut Tape, r: usize) -> Vec<u8> {
    let c = t.range(1, 63);
    let n = 2 * (r + 1);
    let mut s: Vec<u32> = (0..n as u32).map(|i| 0xb7e15163u32.wrapping_add(i.wrapping_mul(0x9e3779b9))).collect();
    let (mut a, mut b) = (0u32, 0u32);
    let mut key = vec![];
    for k in 0..c {
        let i = k % n;
        a = s[i].wrapping_add(a).wrapping_add(b).rotate_left(3);
        s[i] = a;
        let l = match t.below(4) {
            0 => t.u64() as u32,
            1 => rare32(t, &[a, b]),
            kind => {
                let v = rare32(t, &[a, b, s[(i + 1) % n]]);
                // the new b itself, or the b that makes the next a rare
                let nb = if kind == 2 { v } else { v.rotate_right(3).wrapping_sub(s[(i + 1) % n]).wrapping_sub(a) };
                nb.rotate_right(a.wrapping_add(b) & 31).wrapping_sub(a).wrapping_sub(b)
            }
        };
        b = l.wrapping_add(a).wrapping_add(b).rotate_left(a.wrapping_add(b) & 31);
        key.extend(l.to_le_bytes());
    }
    key
}
fn rc5_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let r = t.size(0, 255);
    let key = if t.chance(1, 3) {
        cx.class("keys solved for rare schedule words");
        rc5_solved_key(t, r)
    } else {
        t.blob(0, 255)
    };
    let Some((c, rf)) = rc5_new(cx, &key, r) else { return };
    for _ in 0..t.range(1, 5) {
        let mut b: [u8; 8] = t.arr();
        if t.chance(1, 2) {
            let x = rare32(t, &[t_word(&b)]);
            let y = rare32(t, &[x]);
            b = (x as u64 | (y as u64) << 32).to_le_bytes();
        }
        if r > 0 && t.chance(1, 2) {
            b = rf.dec_from(b, t.range(1, r));
            cx.class("mid-round states chosen");
        }
        rc5_one(cx, &c, &rf, &key, r, b);
    }
    cx.sample(97, || format!("RC5 key={} rounds={r}", hex(&key)));
}
