//! C05 block messages, C06 malformed ciphertexts, C07 padding, C08 stream ciphers.
use crate::engine::*;
use crate::oracle::rc;
use std::cell::Cell;
use std::rc::Rc;
use vpcalls::{self as v, BLOCK_SIZES, CipherSpec, CountedKeys, Dir, Keys, MODES, PAD_SIZES, Trace};

fn pkcs_tail(data: &[u8], n: usize) -> Vec<u8> {
    let p = n - data.len() % n;
    let mut v = data.to_vec();
    v.resize(data.len() + p, p as u8);
    v
}

fn spec(t: &mut Tape) -> CipherSpec {
    match t.below(8) {
        0 => {
            let n = *t.pick(&[16, 24, 32]);
            CipherSpec::Aes(t.bytes(n))
        }
        1 => CipherSpec::Rc2(t.blob(1, 128), t.size(1, 1024) as u16),
        2 => CipherSpec::Rc5(t.blob(1, 40), t.size(0, 40) as u8),
        _ => {
            let n = block_size(t);
            CipherSpec::Toy(n, t.blob(1, 16))
        }
    }
}
/// half of the time one of the sizes in use, otherwise any
fn block_size(t: &mut Tape) -> usize {
    if t.chance(1, 2) { *t.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 127, 128, 129, 254, 255]) } else { *t.pick(BLOCK_SIZES) }
}
fn pad_size(t: &mut Tape) -> usize {
    match t.below(64) {
        0 => *t.pick(PAD_SIZES),
        1..12 => *t.pick(&[256usize, 257, 300, 511, 512, 513, 1000, 1024, 1025]),
        _ => block_size(t),
    }
}
fn spec_for(n: usize, t: &mut Tape) -> CipherSpec {
    CipherSpec::Toy(n, t.blob(1, 16))
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "a case is (cipher, block size, mode, IV, message): the library's message driver is run with a recording mode and sink; the trace (mode calls: direction, order, blocks given; emitted bytes) is checked against blocks computed one by one, then the ciphertext is decrypted with a fresh mode; distinct by (cipher parameters, mode, message)",
    scenarios: &[
        Scenario::sweep("msg-lengths", (255 * 24) as u64, (255 * 160) as u64, msg_lengths),
        Scenario::sweep("msg-long", 24, 200, msg_long),
        Scenario::sweep("msg-blocks", 40, 160, msg_blocks),
        Scenario::random("msg-random", 10, msg_random),
        Scenario::heavy_plain("msg-far", 6, 6, msg_far),
    ],
    cap: 6 << 30,
};

/// Messages of more than 2^32 bytes (and, with 1-byte blocks, blocks); every call and byte checked.
fn far_input(len: usize) -> Vec<u8> {
    let mut m = vec![0u8; len];
    for at in [0, 1, 254, 255, 256, 65536, 1 << 24, 1 << 31, (1usize << 32) - 17, (1 << 32) - 1, 1 << 32, (1 << 32) + 1] {
        if at < len {
            m[at] = 0xc3 ^ at as u8 ^ (at >> 20) as u8;
        }
    }
    m[len - 1] ^= 0x5a;
    m
}
fn far_report(cx: &mut Cx, f: &v::FarSeen, calls: u64, out: u64, ctx: &dyn Fn() -> String) {
    if f.wrong_dir.get() {
        cx.viol("mode invoked in the wrong direction", ctx());
    }
    if let Some(k) = f.wrong_block.get() {
        cx.viol("blocks not given to the mode in message order", format!("{}: call {k}", ctx()));
    }
    if f.calls.get() != calls {
        cx.viol("mode not invoked exactly once per block", format!("{}: {} calls for {calls} blocks", ctx(), f.calls.get()));
    }
    if let Some(k) = f.wrong_out.get() {
        cx.viol("emitted bytes are not the mode's outputs", format!("{}: byte {k}", ctx()));
    }
    if f.out.get() != out {
        cx.viol("wrong number of bytes emitted", format!("{}: {} bytes, expected {out}", ctx(), f.out.get()));
    }
    cx.class_n("mode invocations traced", f.calls.get());
}
fn msg_far(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = [1usize, 16, 255][(i % 3) as usize];
    let len = (1usize << 32) + 3 * n + t.range(0, 2 * n);
    if i / 3 % 2 == 0 {
        cx.case(&[b"far enc", &[n as u8], &(len as u64).to_le_bytes()]);
        let m = far_input(len);
        let f = v::FarSeen::default();
        let ctx = || format!("encrypting {len} bytes, block size {n}");
        if cx.must("message encrypt", ctx, || v::msg_far(n, Dir::Enc, &m, None, &f)).is_some() {
            let k = (len / n + 1) as u64;
            far_report(cx, &f, k, k * n as u64, &ctx);
        }
    } else {
        let blocks = len / n + 1;
        cx.case(&[b"far dec", &[n as u8], &(len as u64).to_le_bytes()]);
        let c = far_input(blocks * n);
        let p = n - len % n;
        let mut last = vec![7u8; n];
        last[n - p..].fill(p as u8);
        let f = v::FarSeen::default();
        let ctx = || format!("decrypting {} bytes, block size {n}, {p} bytes of padding", blocks * n);
        if cx.must("message decrypt", ctx, || v::msg_far(n, Dir::Dec, &c, Some((blocks as u64 - 1, &last)), &f)).is_some() {
            far_report(cx, &f, blocks as u64, len as u64, &ctx);
        }
    }
    cx.class("messages of more than 2^32 bytes");
}

fn check_trace(cx: &mut Cx, tr: &Trace, dir: Dir, blocks: &[u8], n: usize, ctx: &dyn Fn() -> String) {
    let calls = tr.mode_calls.borrow();
    if calls.iter().any(|c| c.0 != dir) {
        cx.viol("mode invoked in the wrong direction", ctx());
    }
    let given: Vec<u8> = calls.iter().flat_map(|c| c.1.iter().copied()).collect();
    if calls.len() != blocks.len() / n {
        cx.viol("mode not invoked exactly once per block", format!("{}: {} calls for {} blocks", ctx(), calls.len(), blocks.len() / n));
    } else if given != blocks {
        cx.viol("blocks not given to the mode in message order", format!("{}: got {} want {}", ctx(), hex(&given), hex(blocks)));
    }
    cx.class_n("mode invocations traced", calls.len() as u64);
}

fn msg_check(cx: &mut Cx, s: &CipherSpec, mode: u8, iv: &[u8], m: &[u8]) {
    let n = s.block();
    let dbg = format!("{s:?}");
    cx.case(&[dbg.as_bytes(), &[mode], iv, m]);
    let ctx = || format!("cipher {dbg} mode {mode} iv {} message ({} bytes) {}", hex(iv), m.len(), hex(m));
    let padded = pkcs_tail(m, n);
    let want = s.manual(Dir::Enc, mode, iv, &padded);
    let tr = Trace::default();
    let Some(()) = cx.must("message encrypt", ctx, || s.drive(Dir::Enc, mode, iv, m, &tr)) else { return };
    let out = tr.out.borrow().clone();
    cx.check(out.len() == (m.len() / n + 1) * n, "ciphertext length is not (len/N+1)*N", || format!("{}: {} bytes", ctx(), out.len()));
    cx.eq("ciphertext is not the concatenation of the mode's outputs", &out, &want, ctx);
    if mode != MODES {
        check_trace(cx, &tr, Dir::Enc, &padded, n, &ctx);
    }
    let td = Trace::default();
    let Some(()) = cx.must("message decrypt", ctx, || s.drive(Dir::Dec, mode, iv, &want, &td)) else { return };
    let back = td.out.borrow().clone();
    cx.eq("decryption does not give back the message", &back, m, ctx);
    if mode != MODES {
        check_trace(cx, &td, Dir::Dec, &want, n, &ctx);
    }
    cx.class(match m.len() % n {
        0 if m.is_empty() => "empty message",
        0 => "whole number of blocks",
        _ => "partial last block",
    });
    cx.class(["mode stateless", "mode CBC", "mode position-tweak", "mode PCBC", "library ECB"][mode as usize]);
}
fn msg_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = BLOCK_SIZES[(i % 255) as usize];
    let k = (i / 255) as usize;
    let len = match k {
        0..=9 => k,
        _ => t.range(0, 4 * n + 3),
    };
    let s = spec_for(n, t);
    let mode = (i / 255 % 5) as u8;
    let iv = t.blob(0, n);
    let m = t.bytes(if k % 3 == 0 { len / n * n } else { len });
    msg_check(cx, &s, mode, &iv, &m);
}
fn msg_long(i: u64, t: &mut Tape, cx: &mut Cx) {
    let s = if i % 2 == 0 { spec(t) } else { spec_for([1, 3, 4, 8, 16, 255][(i / 2 % 6) as usize], t) };
    let mode = t.below(5) as u8;
    let len = *t.pick(&[255usize, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 100_000, 131_072]);
    let m = t.seeded(len);
    let iv = t.blob(0, 32);
    msg_check(cx, &s, mode, &iv, &m);
    cx.class("long messages");
}
fn msg_blocks(i: u64, t: &mut Tape, cx: &mut Cx) {
    // block counts around 2^8, 2^12, 2^16 and beyond
    let n = [1usize, 2, 4, 8, 16, 16, 3, 255][(i % 8) as usize];
    let s = match i % 8 {
        3 => CipherSpec::Rc2(t.blob(1, 16), 64),
        4 => CipherSpec::Aes(t.bytes(16)),
        _ => spec_for(n, t),
    };
    let blocks = match i / 8 % 5 {
        0 => t.range(254, 258),
        1 => t.range(4094, 4099),
        2 => t.range(65534, 65538),
        3 => 65536 + t.range(0, 9000),
        _ => t.range(1000, 140_000),
    };
    let blocks = if n == 255 { blocks.min(66_000) } else { blocks };
    let len = blocks * n + t.range(0, n - 1);
    let m = t.seeded(len);
    let iv = t.blob(0, n);
    let mode = t.below(5) as u8;
    msg_check(cx, &s, mode, &iv, &m);
    cx.class("messages with block counts up to and above 2^16");
}
fn msg_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let s = spec(t);
    let n = s.block();
    let mode = t.below(5) as u8;
    let iv = t.blob(0, n);
    let mut m = if t.chance(1, 6) { t.blob(0, 2000) } else { t.blob(0, (5 * n + 2).min(700)) };
    if t.chance(1, 3) {
        m.truncate(m.len() / n * n);
    }
    if t.chance(1, 4) && !m.is_empty() {
        // a message that itself ends like padding
        let p = t.range(1, n.min(m.len()));
        let l = m.len();
        m[l - p..].fill(p as u8);
    }
    msg_check(cx, &s, mode, &iv, &m);
    cx.sample(97, || format!("{s:?} mode {mode} message {}", hex(&m)));
}

// ---------------------------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    rule: "a case is a ciphertext that must be refused: wrong length, or a last block that decrypts to malformed PKCS padding (zero, too big, inconsistent bytes), under every cipher and mode; the recorded output is checked against the exact decryption of the preceding blocks; well-formed neighbours are included so that refusal is not vacuous; distinct by (cipher parameters, mode, ciphertext)",
    scenarios: &[
        Scenario::sweep("bad-length", 255 * 30, 255 * 160, bad_len),
        Scenario::sweep("bad-long", 24, 120, bad_long),
        Scenario::sweep("bad-pad", 255 * 40, 255 * 240, bad_pad_sweep),
        Scenario::sweep("bad-pad-16", 16 * 256 + 8 * 256, 16 * 256 + 8 * 256, bad_pad_bytes),
        Scenario::random("bad-random", 10, bad_random),
        Scenario::heavy_plain("bad-far", 6, 6, bad_far),
    ],
    cap: 6 << 30,
};
/// ciphertexts of more than 2^32 bytes that must be refused
fn bad_far(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = [16usize, 255, 1][(i % 3) as usize];
    let f = v::FarSeen::default();
    if i / 3 == 0 && n > 1 {
        // a length that is a multiple modulo 2^32 only, or nearly
        let len = match n {
            255 => (1usize << 32) + n * t.range(0, 9), // 2^32 is 1 modulo 255
            _ => (1 << 32) + n * t.range(0, 9) + 1 + t.range(0, n - 2),
        };
        cx.case(&[b"far len", &[n as u8], &(len as u64).to_le_bytes()]);
        let ctx = || format!("decrypting {len} bytes, block size {n}");
        let c = far_input(len);
        if cx.call(|| v::msg_far(n, Dir::Dec, &c, None, &f)).is_ok() {
            cx.viol("non-multiple length ciphertext accepted", ctx());
        }
        if f.out.get() != 0 {
            cx.viol("output emitted for non-multiple length ciphertext", format!("{}: {} bytes", ctx(), f.out.get()));
        }
        cx.class("refused: non-multiple length");
        return;
    }
    let blocks = (1usize << 32) / n + 2 + t.range(0, 5);
    let mut last = vec![0x11u8; n];
    let bad = match i % 2 {
        0 => 0,
        _ if n == 255 => {
            last[n - 3] = 9;
            3
        }
        _ => n as u8 + 1,
    };
    last[n - 1] = bad;
    cx.case(&[b"far pad", &[n as u8], &(blocks as u64).to_le_bytes(), &last]);
    let ctx = || format!("decrypting {} bytes, block size {n}, last block {}", blocks * n, hex(&last));
    let c = far_input(blocks * n);
    if cx.call(|| v::msg_far(n, Dir::Dec, &c, Some((blocks as u64 - 1, &last)), &f)).is_ok() {
        cx.viol("malformed padding accepted", ctx());
    }
    if f.out.get() > ((blocks - 1) * n) as u64 {
        cx.viol("bytes of the malformed last block emitted", format!("{}: {} bytes", ctx(), f.out.get()));
    }
    if let Some(k) = f.wrong_out.get() {
        cx.viol("emitted bytes are not the decryption of the preceding blocks", format!("{}: byte {k}", ctx()));
    }
    cx.class("ciphertexts of more than 2^32 bytes");
}
fn is_pkcs(b: &[u8]) -> Option<usize> {
    let n = b.len();
    let a = *b.last()? as usize;
    if a == 0 || a > n || b[n - a..].iter().any(|&x| x as usize != a) {
        return None;
    }
    Some(n - a)
}
/// decrypts `ct` through the library and judges the outcome
fn dec_judge(cx: &mut Cx, s: &CipherSpec, mode: u8, iv: &[u8], ct: &[u8]) {
    let n = s.block();
    let dbg = format!("{s:?}");
    cx.case(&[dbg.as_bytes(), &[mode], iv, ct]);
    let ctx = || format!("cipher {dbg} mode {mode} iv {} ciphertext ({} bytes) {}", hex(iv), ct.len(), hex(ct));
    let tr = Trace::default();
    let res = cx.call(|| s.drive(Dir::Dec, mode, iv, ct, &tr));
    let out = tr.out.borrow().clone();
    if ct.is_empty() || ct.len() % n != 0 {
        let what = if ct.is_empty() { "empty" } else { "non-multiple length" };
        cx.class(&format!("refused: {what}"));
        if res.is_ok() {
            cx.viol(&format!("{what} ciphertext accepted"), ctx());
        }
        if !out.is_empty() {
            cx.viol(&format!("output emitted for {what} ciphertext"), format!("{}: emitted {}", ctx(), hex(&out)));
        }
        return;
    }
    let plain = s.manual(Dir::Dec, mode, iv, ct);
    let body = &plain[..plain.len() - n];
    let last = &plain[plain.len() - n..];
    match is_pkcs(last) {
        Some(k) => {
            cx.class("well-formed padding accepted");
            if let Err(e) = res {
                cx.viol("well-formed ciphertext refused", format!("{}: {e}", ctx()));
            } else {
                let want: Vec<u8> = [body, &last[..k]].concat();
                cx.eq("wrong plaintext", &out, &want, ctx);
            }
        }
        None => {
            let a = last[n - 1] as usize;
            let kind = if a == 0 { "padding byte zero" } else if a > n { "padding byte above block size" } else { "inconsistent padding bytes" };
            cx.class(&format!("refused: {kind}"));
            if res.is_ok() {
                cx.viol(&format!("{kind}: accepted"), format!("{}: last block {} gave {}", ctx(), hex(last), hex(&out)));
            }
            if out.len() > body.len() {
                cx.viol(&format!("{kind}: bytes of the last block emitted"), format!("{}: last block {} emitted {}", ctx(), hex(last), hex(&out)));
            } else if out != body[..out.len()] {
                cx.viol("output before refusal is not the decryption of the preceding blocks", format!("{}: {}", ctx(), hex(&out)));
            }
        }
    }
}
fn bad_len(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = BLOCK_SIZES[(i % 255) as usize];
    let k = (i / 255) as usize;
    let s = spec_for(n, t);
    let mode = (k % 5) as u8;
    let iv = t.blob(0, n);
    let len = if k < 20 { k } else { t.range(0, 5 * n) };
    // a truncated or extended valid ciphertext, or arbitrary bytes
    let ct = if k % 2 == 0 {
        let m = t.bytes(len);
        let mut c = s.manual(Dir::Enc, mode, &iv, &pkcs_tail(&m, n));
        if t.chance(1, 2) {
            let cut = t.range(0, c.len());
            c.truncate(cut);
        } else {
            let x = t.blob(1, n);
            c.extend(x);
        }
        c
    } else {
        t.bytes(len)
    };
    dec_judge(cx, &s, mode, &iv, &ct);
}
fn bad_long(i: u64, t: &mut Tape, cx: &mut Cx) {
    // long ciphertexts with an incomplete last block or a bad padding
    let n = [16usize, 8, 3, 16, 2, 255][(i % 6) as usize];
    let s = if i % 4 == 0 && n == 16 { CipherSpec::Aes(t.bytes(16)) } else { spec_for(n, t) };
    let blocks = match i / 6 % 4 {
        0 => t.range(250, 260),
        1 => t.range(4090, 4100),
        2 => t.range(65530, 65540),
        _ => t.size(100, 70_000),
    };
    let blocks = if n == 255 { blocks.min(5000) } else { blocks };
    let iv = t.blob(0, n);
    let mode = t.below(5) as u8;
    let mut plain = t.seeded(blocks * n);
    let at = plain.len() - n;
    let last = corrupt_block(t, n);
    plain[at..].copy_from_slice(&last);
    let ct = s.manual(Dir::Enc, mode, &iv, &plain);
    dec_judge(cx, &s, mode, &iv, &ct);
    let extra = t.range(1, n - 1);
    dec_judge(cx, &s, mode, &iv, &[&ct[..], &ct[..extra]].concat());
    dec_judge(cx, &s, mode, &iv, &ct[..ct.len() - extra]);
    cx.class("long malformed ciphertexts");
}
fn corrupt_block(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut b = t.bytes(n);
    match t.below(6) {
        0 => b[n - 1] = 0,
        1 => {
            let a = t.range(1, n);
            b[n - a..].fill(a as u8);
            if n < 255 {
                b[n - 1] = t.range(n + 1, 255) as u8;
            }
        }
        2 => {
            // one wrong byte inside otherwise correct padding
            let a = t.range(1, n);
            b[n - a..].fill(a as u8);
            let p = t.range(n - a, n - 1);
            b[p] ^= 1 << t.below(8);
        }
        3 => {
            // first padding byte wrong
            let a = t.range(1, n);
            b[n - a..].fill(a as u8);
            b[n - a] = b[n - a].wrapping_add(1 + t.below(255) as u8);
        }
        4 => {
            let a = t.range(1, n);
            b[n - a..].fill(0);
            b[n - 1] = a as u8;
        }
        _ => {
            let a = t.range(1, n);
            b[n - a..].fill(a as u8);
        }
    }
    b
}
fn bad_pad_sweep(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = BLOCK_SIZES[(i % 255) as usize];
    let s = spec_for(n, t);
    let mode = (i / 255 % 5) as u8;
    let iv = t.blob(0, n);
    let nb = t.range(0, 3);
    let mut plain = t.bytes(nb * n);
    plain.extend(corrupt_block(t, n));
    let ct = s.manual(Dir::Enc, mode, &iv, &plain);
    dec_judge(cx, &s, mode, &iv, &ct);
}
fn bad_pad_bytes(i: u64, t: &mut Tape, cx: &mut Cx) {
    // every last byte value with every number of matching bytes before it
    let (n, i) = if i < 16 * 256 { (16usize, i as usize) } else { (8, i as usize - 16 * 256) };
    let (a, k) = (i % 256, i / 256 + 1);
    let mut b = t.bytes(n);
    b[n - k..].fill(a as u8);
    let s = if n == 16 { CipherSpec::Aes(t.bytes(16)) } else if i % 2 == 0 { CipherSpec::Rc2(t.bytes(8), 64) } else { CipherSpec::Rc5(t.bytes(16), 12) };
    let mode = t.below(5) as u8;
    let iv = t.bytes(n);
    let mut plain = t.bytes(n);
    plain.extend(b);
    let ct = s.manual(Dir::Enc, mode, &iv, &plain);
    dec_judge(cx, &s, mode, &iv, &ct);
}
fn bad_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let s = spec(t);
    let n = s.block();
    let mode = t.below(5) as u8;
    let iv = t.blob(0, n);
    let ct = match t.below(4) {
        0 => t.blob(0, 4 * n + 3),
        1 => {
            // tamper with a valid ciphertext
            let m = t.blob(0, 3 * n);
            let mut c = s.manual(Dir::Enc, mode, &iv, &pkcs_tail(&m, n));
            let p = t.below(c.len() as u64) as usize;
            c[p] ^= t.byte();
            c
        }
        _ => {
            let nb = t.range(0, 3);
            let mut plain = t.bytes(nb * n);
            plain.extend(corrupt_block(t, n));
            s.manual(Dir::Enc, mode, &iv, &plain)
        }
    };
    dec_judge(cx, &s, mode, &iv, &ct);
    cx.sample(97, || format!("{s:?} mode {mode} ciphertext {}", hex(&ct)));
}

// ---------------------------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    rule: "a case is a partial block to pad (and unpad), a full block to unpad, or an over-full block to pad, for one scheme and block size; the schemes' definitions decide which blocks unpadding may accept; all partial lengths and many block contents per size, all 1- and 2-byte blocks exhaustively; distinct by (scheme, size, content)",
    scenarios: &[
        Scenario::sweep("pad-all-lengths", 268 * 2, 268 * 12, pad_lengths),
        Scenario::sweep("unpad-small", 256 + 65536 / 64, 256 + 65536 / 64, unpad_small),
        Scenario::sweep("unpad-tail", 255 * 256, 255 * 256 * 4, unpad_tail),
        Scenario::random("pad-random", 3, pad_random),
        Scenario::random("unpad-random", 7, unpad_random),
    ],
    cap: 1 << 30,
};
fn pad_one(cx: &mut Cx, pkcs: bool, n: usize, p: &[u8]) {
    let name = if pkcs { "PKCS" } else { "bit" };
    if pkcs && n > 255 {
        return;
    }
    cx.case(&[name.as_bytes(), &(n as u32).to_le_bytes(), b"pad", p]);
    let ctx = || format!("{name} padding, block {n}, data ({} bytes) {}", p.len(), hex(p));
    if p.len() >= n {
        cx.class(&format!("{name}: over-full offered"));
        cx.refuse(&format!("{name}: padding a full block"), |o: &Vec<u8>| format!("{}: gave {}", ctx(), hex(o)), || if pkcs { v::pkcs_pad(n, p) } else { v::bit_pad(n, p) });
        return;
    }
    let mut want = p.to_vec();
    if pkcs {
        want.resize(n, (n - p.len()) as u8);
    } else {
        want.push(0x80);
        want.resize(n, 0);
    }
    if let Some(o) = cx.must(&format!("{name} pad"), ctx, || if pkcs { v::pkcs_pad(n, p) } else { v::bit_pad(n, p) }) {
        cx.eq(&format!("{name}: padded block is wrong"), &o, &want, ctx);
    }
    unpad_one(cx, pkcs, n, &want);
    cx.class(&format!("{name}: padded"));
}
fn bit_len(b: &[u8]) -> Option<usize> {
    let k = b.iter().rposition(|&x| x != 0)?;
    if b[k] == 0x80 { Some(k) } else { None }
}
fn unpad_one(cx: &mut Cx, pkcs: bool, n: usize, b: &[u8]) {
    let name = if pkcs { "PKCS" } else { "bit" };
    if pkcs && n > 255 {
        return;
    }
    cx.case(&[name.as_bytes(), &(n as u32).to_le_bytes(), b"unpad", b]);
    let want = if pkcs { is_pkcs(b) } else { bit_len(b) };
    let ctx = || format!("{name} unpadding, block {n}: {}", hex(b));
    match want {
        Some(k) => {
            cx.class(&format!("{name}: well-formed unpadded"));
            if pkcs {
                if let Some(l) = cx.must("PKCS unpad of a padded block", ctx, || v::pkcs_unpad(n, b)) {
                    cx.check(l == k, "PKCS: unpadded length is wrong", || format!("{}: {l} instead of {k}", ctx()));
                }
            } else if let Some((x, l)) = cx.must("bit unpad of a padded block", ctx, || v::bit_unpad(n, b)) {
                cx.check(l == k, "bit: unpadded length is wrong", || format!("{}: {l} instead of {k}", ctx()));
                cx.check(x.len() >= k && x[..k] == b[..k], "bit: unpadded data is wrong", || format!("{}: {}", ctx(), hex(&x)));
                cx.check(x.len() == n && x[k..].iter().all(|&z| z == 0), "bit: the returned block is not the data followed by zeros", || format!("{}: {}", ctx(), hex(&x)));
            }
        }
        None => {
            cx.class(&format!("{name}: malformed offered"));
            let kind = if !pkcs {
                if b.iter().all(|&x| x == 0) { "no marker" } else if b.contains(&0x80) { "non-zero bytes after the marker" } else { "missing marker" }
            } else if b[n - 1] == 0 {
                "zero padding byte"
            } else if b[n - 1] as usize > n {
                "padding byte too big"
            } else {
                "inconsistent padding bytes"
            };
            cx.refuse(&format!("{name}: {kind}"), |l: &usize| format!("{} accepted as {l} data bytes", ctx()), || if pkcs { v::pkcs_unpad(n, b) } else { v::bit_unpad(n, b).1 });
        }
    }
}
fn pad_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = PAD_SIZES[(i % 268) as usize];
    let lengths: Vec<usize> = if n <= 520 { (0..n + 3).collect() } else { (0..20).chain((0..10).map(|_| t.range(0, n))).chain(n - 12..n + 3).chain([255, 256, 257, n / 2]).collect() };
    for l in lengths {
        let p = if t.chance(1, 4) { vec![*t.pick(&[0u8, 0x80, 1, 0xff]); l] } else { t.seeded(l) };
        pad_one(cx, true, n, &p);
        pad_one(cx, false, n, &p);
    }
    // much too long
    for l in [2 * n, 256, 256 + n - 1, 300, 512, 1000] {
        if l >= n {
            let p = t.seeded(l);
            pad_one(cx, true, n, &p);
            pad_one(cx, false, n, &p);
        }
    }
}
fn unpad_small(i: u64, _t: &mut Tape, cx: &mut Cx) {
    if i < 256 {
        for k in [true, false] {
            unpad_one(cx, k, 1, &[i as u8]);
        }
    } else {
        for j in 0..64 {
            let v = ((i - 256) * 64 + j) as u16;
            for k in [true, false] {
                unpad_one(cx, k, 2, &v.to_be_bytes());
            }
        }
    }
}
fn unpad_tail(i: u64, t: &mut Tape, cx: &mut Cx) {
    // last byte = a, preceded by 0..a+1 matching bytes
    let n = PAD_SIZES[(i % 255) as usize];
    let a = (i / 255 % 256) as usize;
    let mut b = t.seeded(n);
    let k = match t.below(4) {
        0 => a,
        1 => a.wrapping_sub(1),
        2 => a + 1,
        _ => t.range(1, n),
    }
    .clamp(1, n);
    b[n - k..].fill(a as u8);
    unpad_one(cx, true, n, &b);
    if a > 0 && a <= n {
        // correct padding, then one wrong byte at a random place of it
        b[n - a..].fill(a as u8);
        unpad_one(cx, true, n, &b);
        let p = t.range(n - a, n - 1);
        b[p] = b[p].wrapping_add(1 + t.below(255) as u8);
        unpad_one(cx, true, n, &b);
    }
    let mut b = t.seeded(n);
    b[n - k..].fill(0);
    b[n - k] = a as u8;
    unpad_one(cx, false, n, &b);
    b[n - k] = 0x80;
    unpad_one(cx, false, n, &b);
    let p = t.range(n - k, n - 1);
    b[p] = a as u8;
    unpad_one(cx, false, n, &b);
}
fn pad_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = pad_size(t);
    let p = t.blob(0, n + 1);
    let k = t.chance(1, 2);
    pad_one(cx, k, n, &p);
}
fn unpad_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = pad_size(t);
    let k = t.chance(1, 2);
    let mut b = t.bytes(n);
    match t.below(4) {
        0 => {}
        1 => b = corrupt_block(t, n.min(255)).into_iter().chain(vec![0; n.saturating_sub(255)]).collect(),
        2 => {
            let p = t.below(n as u64) as usize;
            b[p..].fill(0);
            b[p] = 0x80;
            if t.chance(1, 2) {
                let q = t.range(p, n - 1);
                b[q] = t.byte();
            }
        }
        _ => {
            let a = t.range(1, n.min(255));
            b[n - a..].fill(a as u8);
            if t.chance(1, 2) {
                let q = t.range(n - a, n - 1);
                b[q] = t.byte();
            }
        }
    }
    unpad_one(cx, k, n, &b);
    cx.sample(997, || format!("unpad block {n}: {}", hex(&b)));
}

// ---------------------------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    rule: "a case is a history of encrypt calls on one StreamCipher: pieces of data, how many bytes of each returned iterator are taken, through which kind of iterator, over a counted (cyclic or finite) or RC4 keystream; every byte taken and the keystream position after every call are checked; distinct by whole history",
    scenarios: &[
        Scenario::sweep("stream-splits", 2000, 20000, stream_splits),
        Scenario::sweep("stream-exhaust", 1500, 15000, stream_exhaust),
        Scenario::sweep("stream-long", 32, 200, stream_long),
        Scenario::heavy_plain("stream-far", 1, 1, stream_far),
        Scenario::random("stream-history", 10, stream_history),
        Scenario::random("stream-skip", 3, stream_skip),
    ],
    cap: 1 << 30,
};
struct Piece {
    data: Vec<u8>,
    take: usize,
    style: u8,
}
fn stream_run(cx: &mut Cx, keys: &[u8], kind: u8, rc4key: &[u8], pieces: &[Piece]) {
    // kind 0: cyclic counted, 1: finite counted, 2: RC4
    let pos = Rc::new(Cell::new(0usize));
    let ks = match kind {
        2 => Keys::Rc4(v::Rc4::new(rc4key)),
        k => Keys::Counted(CountedKeys { keys: keys.to_vec(), cyclic: k == 0, pos: pos.clone() }),
    };
    let total: usize = pieces.iter().map(|p| p.take.min(p.data.len())).sum();
    let key: Vec<u8> = match kind {
        2 => rc::Rc4::stream(rc4key, total),
        0 => (0..total).map(|i| keys[i % keys.len()]).collect(),
        _ => keys.to_vec(),
    };
    let mut parts: Vec<Vec<u8>> = vec![vec![kind], keys.to_vec(), rc4key.to_vec()];
    for p in pieces {
        parts.push(p.data.clone());
        parts.push(vec![p.take as u8, p.style]);
    }
    let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    cx.case(&refs);
    let desc = || {
        let h: Vec<String> = pieces.iter().map(|p| format!("[{} bytes, take {}, style {}]", p.data.len(), p.take, p.style)).collect();
        format!("keystream kind {kind} ({} key bytes) pieces {}", keys.len(), h.join(" "))
    };
    let mut s = v::stream_new(ks);
    let mut at = 0usize;
    for (pi, p) in pieces.iter().enumerate() {
        let want_n = p.take.min(p.data.len());
        let avail = if kind == 1 { keys.len().saturating_sub(at) } else { usize::MAX };
        let mut out = vec![];
        let res = cx.call(|| v::stream_piece(&mut s, &p.data, p.take, p.style, &mut out));
        let good = want_n.min(avail);
        let want: Vec<u8> = (0..good).map(|i| p.data[i] ^ key[at + i]).collect();
        if want_n > avail {
            cx.class("keystream exhausted inside a call");
            if res.is_ok() {
                cx.viol("exhausted keystream not refused", format!("{}: piece {pi} needs {want_n} key bytes, {avail} left, gave {} bytes", desc(), out.len()));
            } else if out.len() > good {
                cx.viol("bytes emitted past the end of the keystream", format!("{}: piece {pi}: {} bytes with {avail} key bytes", desc(), out.len()));
            } else if !want.starts_with(&out) {
                cx.viol("stream output differs", format!("{}: piece {pi}: got {} want {}", desc(), hex(&out), hex(&want)));
            }
            return;
        }
        if let Err(e) = res {
            cx.viol("stream encrypt panicked with keystream left", format!("{}: piece {pi}: {e}", desc()));
            return;
        }
        if out != want {
            cx.viol("stream byte is not data XOR keystream at its position", format!("{}: piece {pi} at offset {at}: got {} want {}", desc(), hex(&out), hex(&want)));
            return;
        }
        at += want_n;
        if kind != 2 && pos.get() != at {
            cx.viol("keystream consumption is not one byte per output byte", format!("{}: after piece {pi}: {} key bytes consumed for {at} output bytes", desc(), pos.get()));
            return;
        }
        cx.class(if p.take < p.data.len() { "partial read" } else if p.data.is_empty() { "empty piece" } else { "full read" });
    }
    cx.class_n("stream bytes checked", at as u64);
}
fn gen_pieces(t: &mut Tape, max: usize, partial: bool) -> Vec<Piece> {
    let n = t.size(1, 8);
    (0..n)
        .map(|_| {
            let l = t.size(0, max);
            let data = t.bytes(l);
            let take = if partial && t.chance(1, 3) { t.range(0, l) } else { l + t.below(2) as usize };
            Piece { data, take, style: t.below(v::STREAM_STYLES as u64) as u8 }
        })
        .collect()
}
fn stream_splits(i: u64, t: &mut Tape, cx: &mut Cx) {
    let max = [4, 20, 70, 300][(i % 4) as usize];
    let pieces = gen_pieces(t, max, i % 8 >= 4);
    let kind = if i % 3 == 0 { 2 } else { 0 };
    let keys = t.blob(1, 300);
    let rk = t.blob(1, 32);
    stream_run(cx, &keys, kind, &rk, &pieces);
}
fn stream_exhaust(i: u64, t: &mut Tape, cx: &mut Cx) {
    let pieces = gen_pieces(t, 24, i % 2 == 0);
    let total: usize = pieces.iter().map(|p| p.take.min(p.data.len())).sum();
    // keystream ends before, at, or just after the end of the data
    let kl = match t.below(3) {
        0 => total,
        1 => t.range(0, total),
        _ => total.saturating_sub(1),
    };
    let keys = t.bytes(kl);
    stream_run(cx, &keys, 1, &[1], &pieces);
}
fn stream_far(_: u64, _t: &mut Tape, cx: &mut Cx) {
    let n = (1u64 << 32) + 70_000;
    cx.case(&[b"far", &n.to_le_bytes()]);
    let ctx = || format!("one message of {n} bytes");
    if let Some(Some(k)) = cx.must("stream encrypt", ctx, || v::stream_far(n)) {
        cx.viol("stream output is not data XOR keystream", format!("{}: byte {k}", ctx()));
    }
    cx.class("streams read past 2^32 bytes");
}
fn stream_long(i: u64, t: &mut Tape, cx: &mut Cx) {
    // far into one stream: few large pieces or very many small ones
    let pieces: Vec<Piece> = if i % 2 == 0 {
        (0..t.range(2, 4))
            .map(|_| {
                let l = t.size(20_000, if i % 8 == 0 { 1_500_000 } else { 200_000 });
                let take = if t.chance(1, 3) { l - l / 3 } else { l };
                Piece { data: t.seeded(l), take, style: t.below(v::STREAM_STYLES as u64) as u8 }
            })
            .collect()
    } else {
        let n = t.size(300, 5000);
        let all = t.seeded(n * 17);
        (0..n)
            .map(|j| {
                let l = j * 7 % 18;
                let at = j * 17 % (all.len() - 17);
                Piece { data: all[at..at + l].to_vec(), take: if j % 5 == 0 { l / 2 } else { l }, style: (j % v::STREAM_STYLES as usize) as u8 }
            })
            .collect()
    };
    let keys = t.bytes(251);
    let rk = t.blob(1, 64);
    stream_run(cx, &keys, if i % 4 < 2 { 0 } else { 2 }, &rk, &pieces);
    cx.class("long streams");
}
fn stream_skip(_: u64, t: &mut Tape, cx: &mut Cx) {
    let keys = t.blob(1, 300);
    let pos = Rc::new(Cell::new(0usize));
    let mut s = v::stream_new(Keys::Counted(CountedKeys { keys: keys.clone(), cyclic: true, pos: pos.clone() }));
    let mut at = 0usize;
    let mut hist = vec![];
    let mut parts: Vec<Vec<u8>> = vec![keys.clone()];
    for _ in 0..t.range(1, 4) {
        let data = t.blob(0, 120);
        let gaps: Vec<usize> = (0..t.range(0, 12)).map(|_| t.range(0, 9)).collect();
        parts.push(data.clone());
        parts.push(gaps.iter().map(|&g| g as u8).collect());
        hist.push((data.len(), gaps.clone()));
        let desc = || format!("keystream {} pieces (length, gaps skipped with nth) {hist:?}", hex(&keys));
        let Some((got, n, hint)) = cx.must("stream skip", desc, || v::stream_skip(&mut s, &data, &gaps)) else { return };
        if hint.0 > data.len() || hint.1.is_some_and(|u| u < data.len()) {
            cx.viol("size hint of an encrypting iterator is wrong", format!("{}: {hint:?} for {} bytes", desc(), data.len()));
        }
        for (i, b) in got {
            let w = data[i] ^ keys[(at + i) % keys.len()];
            if b != w {
                cx.viol("stream byte is not data XOR keystream at its position (nth)", format!("{}: data index {i}, offset {}: got {b:02x} want {w:02x}", desc(), at + i));
                return;
            }
        }
        at += n;
        if pos.get() != at {
            cx.viol("keystream consumption is not one byte per output byte (nth)", format!("{}: {} consumed for {at}", desc(), pos.get()));
            return;
        }
    }
    let refs: Vec<&[u8]> = parts.iter().map(|p| &p[..]).collect();
    cx.case(&refs);
    cx.class("reads that skip");
}
fn stream_history(_: u64, t: &mut Tape, cx: &mut Cx) {
    let kind = t.below(3) as u8;
    let keys = t.blob(1, 600);
    let rk = t.blob(1, 64);
    let max = t.size(1, 200);
    let pieces = gen_pieces(t, max, true);
    stream_run(cx, &keys, kind, &rk, &pieces);
    cx.sample(97, || format!("kind {kind}, {} pieces: {:?}", pieces.len(), pieces.iter().map(|p| (p.data.len(), p.take, p.style)).collect::<Vec<_>>()));
}
