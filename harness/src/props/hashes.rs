//! C09 MD2/MD4/MD5, C10 SHA-1/224/256, C11 SHA-384/512, C12 digest conversions.
use crate::engine::*;
use crate::oracle::hash as h;
use crate::oracle::solve::Alg;
use crate::oracle::zeros::ZEROS;
use vpcalls as v;

fn long_zero(cx: &mut Cx, is_md: bool, algs: &[u16], i: u64) {
    let mine: Vec<_> = ZEROS.iter().filter(|z| z.0 == is_md && algs.contains(&z.1)).collect();
    // one item = one algorithm; the lengths that matter most first
    let alg = algs[i as usize % algs.len()];
    let lens: &[u64] = if cx.thorough { &[1 << 29, (1 << 29) - 1, (1 << 29) + 1, (1 << 29) + 5000, (1 << 30) + 70, (1 << 31) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 200] } else { &[1 << 29, (1 << 32) + 1] };
    let n = lens[i as usize / algs.len() % lens.len()];
    let Some(z) = mine.iter().find(|z| z.1 == alg && z.2 == n) else { return };
    cx.case(&[&alg.to_le_bytes(), &n.to_le_bytes()]);
    let ctx = || format!("algorithm {alg}: {n} zero bytes");
    let got = if is_md {
        cx.must("long message", ctx, || v::md_repeat(alg as u8, 0, n as usize).to_vec())
    } else {
        let m = vec![0u8; n as usize];
        cx.must("long message", ctx, || v::sha(alg, &m))
    };
    if let Some(g) = got {
        let w: Vec<u8> = (0..z.3.len() / 2).map(|k| u8::from_str_radix(&z.3[2 * k..2 * k + 2], 16).unwrap()).collect();
        cx.eq("digest of a long message is wrong", &g, &w, ctx);
    }
    cx.class(if n >> 32 > 0 { "messages of more than 2^32 bytes" } else { "messages of about 2^32 bits" });
}

fn gen_msg(t: &mut Tape, block: usize) -> Vec<u8> {
    match t.below(6) {
        0 => {
            // around a block boundary
            let k = t.range(0, 4);
            let d = t.range(0, 36);
            let n = (k * block + block).saturating_sub(d);
            t.bytes(n)
        }
        1 => {
            let n = t.range(0, 3000);
            t.seeded(n)
        }
        _ => t.blob(0, 700),
    }
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "a case is (MD2|MD4|MD5, message, kind of byte iterator) compared with an independent model; every length 0..=1100 with several contents, random and structured messages, messages solved so that working or schedule words take rare values, and zero messages of 2^29 and 2^32+1 bytes (MD4, MD5) against stored digests; distinct by (algorithm, iterator kind, message)",
    scenarios: &[
        Scenario::sweep("md-lengths", 3 * 1101, 3 * 1101 * 6, md_lengths),
        Scenario::sweep("md-mid", 60, 600, md_mid),
        Scenario::random("md-solved", 4, md_solved),
        Scenario::random("md-random", 10, md_random),
        Scenario::heavy_plain("md-zeros", 4, 16, md_zeros),
        Scenario::heavy_plain("md-big", 9, 45, md_big),
    ],
    cap: 8 << 30,
};
fn md_one(cx: &mut Cx, alg: u8, m: &[u8], style: u8) {
    cx.case(&[&[alg, style], m]);
    let ctx = || format!("MD{alg}, iterator kind {style}, {} bytes: {}", m.len(), hex(m));
    if let Some(d) = cx.must(&format!("md{alg}"), ctx, || v::md(alg, m, style)) {
        cx.eq(&format!("md{alg} digest is wrong"), &d, &h::md(alg, m), ctx);
    }
    cx.class(&format!("md{alg}"));
    cx.class(["slice", "vec", "chain", "deque", "flat_map", "linked list", "low hint", "low and high hint", "no hint", "filtered chain", "reversed", "stepped chain"][(style % v::MD_STYLES) as usize]);
}
/// a message one of whose blocks makes working or schedule words take rare values
fn solved(t: &mut Tape, id: u16) -> Vec<u8> {
    let a = Alg::new(id);
    let k = t.below(3) as usize;
    let prefix = t.bytes(k * a.block());
    let h = a.chain(a.iv(), &prefix);
    let rare = |t: &mut Tape, v: &[u64]| -> u64 {
        let x = v[t.below(v.len() as u64) as usize];
        match t.below(9) {
            0 | 1 => 0,
            2 => u64::MAX,
            3 => 1 << t.below(64),
            4 => !(1 << t.below(64)),
            5 => x,
            6 => a.not(x),
            7 => a.add(&[x, 1]),
            _ => t.u64(),
        }
    };
    let block = if id == 4 || id == 5 || t.chance(1, 2) {
        let rate = *t.pick(&[1u64, 2, 4, 8]);
        a.states(&h, |_, v| if t.below(rate) == 0 { (1 + t.below(2) as u8, rare(t, v)) } else { (0, t.u64()) })
    } else {
        let at = t.below(a.steps() as u64 - 15) as usize;
        let rate = *t.pick(&[1u64, 2, 4, 8]);
        let mut win: Vec<u64> = vec![];
        for _ in 0..16 {
            let seen = if win.is_empty() { vec![0] } else { win.clone() };
            win.push(if t.below(rate) == 0 { rare(t, &seen) } else { t.u64() });
        }
        a.window(at, &win)
    };
    let tail = t.blob(0, 70);
    [prefix, block, tail].concat()
}
fn md_solved(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[4u8, 5]);
    let m = solved(t, alg as u16);
    let st = t.below(v::MD_STYLES as u64) as u8;
    md_one(cx, alg, &m, st);
    cx.class("blocks solved for rare intermediate values");
}
fn sha32_solved(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[1u16, 224, 256]);
    let m = solved(t, alg);
    sha_one(cx, alg, &m);
    cx.class("blocks solved for rare intermediate values");
}
fn sha64_solved(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[384u16, 512]);
    let m = solved(t, alg);
    sha_one(cx, alg, &m);
    cx.class("blocks solved for rare intermediate values");
}
fn md_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = [2, 4, 5][(i % 3) as usize];
    let n = (i / 3 % 1101) as usize;
    let m = t.seeded(n);
    md_one(cx, alg, &m, (i / 3 % v::MD_STYLES as u64) as u8);
    let m = t.bytes(n);
    let st = t.below(v::MD_STYLES as u64) as u8;
    md_one(cx, alg, &m, st);
}
fn md_mid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = t.size(4000, 200_000);
    let m = t.seeded(n);
    md_one(cx, [2, 4, 5][(i % 3) as usize], &m, (i % v::MD_STYLES as u64) as u8);
}
fn md_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[2u8, 4, 5]);
    let m = gen_msg(t, if alg == 2 { 16 } else { 64 });
    let st = t.below(v::MD_STYLES as u64) as u8;
    md_one(cx, alg, &m, st);
    cx.sample(97, || format!("MD{alg} of {}", hex(&m)));
}
/// varied content, so that the order of the blocks matters too
fn big_message(i: u64, t: &mut Tape) -> Vec<u8> {
    let n = match i % 3 {
        0 => (1 << 20) + t.range(0, 200) - 100,
        1 => (1 << 24) + t.range(0, 200) - 100,
        _ => t.size(20 << 20, 70 << 20),
    };
    t.seeded(n)
}
fn md_big(i: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = [2u8, 4, 5][(i % 3) as usize];
    let mut m = big_message(i / 3, t);
    if alg == 2 {
        m.truncate(17 << 20);
    }
    md_one(cx, alg, &m, (i % 4 * 2) as u8 % 3);
    cx.class("messages of 1 MiB to 70 MiB");
}
fn md_zeros(i: u64, _t: &mut Tape, cx: &mut Cx) {
    long_zero(cx, true, &[4, 5], i);
}

fn sha_one(cx: &mut Cx, alg: u16, m: &[u8]) {
    cx.case(&[&alg.to_le_bytes(), m]);
    let ctx = || format!("SHA-{alg}, {} bytes: {}", m.len(), hex(m));
    if let Some(d) = cx.must(&format!("sha{alg}"), ctx, || v::sha(alg, m)) {
        cx.eq(&format!("sha{alg} digest is wrong"), &d, &h::sha(alg, m), ctx);
    }
    cx.class(&format!("sha{alg}"));
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "a case is (SHA-1|SHA-224|SHA-256, message) compared with an independent model whose constants are computed; every length 0..=1100, random and structured messages, messages solved so that working or schedule words take rare values, and zero messages of 2^29 and 2^32+1 bytes against stored digests; distinct by (algorithm, message)",
    scenarios: &[
        Scenario::sweep("sha32-lengths", 3 * 1101, 3 * 1101 * 8, sha32_lengths),
        Scenario::sweep("sha32-mid", 60, 600, sha32_mid),
        Scenario::random("sha32-solved", 4, sha32_solved),
        Scenario::random("sha32-random", 10, sha32_random),
        Scenario::heavy_plain("sha32-zeros", 6, 30, sha32_zeros),
        Scenario::heavy_plain("sha32-big", 9, 45, sha32_big),
    ],
    cap: 20 << 30,
};
fn sha32_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = [1, 224, 256][(i % 3) as usize];
    let n = (i / 3 % 1101) as usize;
    let m = t.seeded(n);
    sha_one(cx, alg, &m);
    let m = t.bytes(n);
    sha_one(cx, alg, &m);
}
fn sha32_mid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = t.size(4000, 200_000);
    let m = t.seeded(n);
    sha_one(cx, [1, 224, 256][(i % 3) as usize], &m);
}
fn sha32_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[1u16, 224, 256]);
    let m = gen_msg(t, 64);
    sha_one(cx, alg, &m);
    cx.sample(97, || format!("SHA-{alg} of {}", hex(&m)));
}
fn sha32_big(i: u64, t: &mut Tape, cx: &mut Cx) {
    let m = big_message(i / 3, t);
    sha_one(cx, [1, 224, 256][(i % 3) as usize], &m);
    cx.class("messages of 1 MiB to 70 MiB");
}
fn sha32_zeros(i: u64, _t: &mut Tape, cx: &mut Cx) {
    long_zero(cx, false, &[1, 224, 256], i);
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "a case is (SHA-384|SHA-512, message) compared with an independent model whose constants are computed; every length 0..=1400, random and structured messages, messages solved so that working or schedule words take rare values, and zero messages of 2^29 and 2^32+1 bytes against stored digests; distinct by (algorithm, message)",
    scenarios: &[
        Scenario::sweep("sha64-lengths", 2 * 1401, 2 * 1401 * 8, sha64_lengths),
        Scenario::sweep("sha64-mid", 60, 600, sha64_mid),
        Scenario::random("sha64-solved", 4, sha64_solved),
        Scenario::random("sha64-random", 10, sha64_random),
        Scenario::heavy_plain("sha64-zeros", 4, 20, sha64_zeros),
        Scenario::heavy_plain("sha64-big", 6, 30, sha64_big),
    ],
    cap: 20 << 30,
};
fn sha64_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = [384, 512][(i % 2) as usize];
    let n = (i / 2 % 1401) as usize;
    let m = t.seeded(n);
    sha_one(cx, alg, &m);
    let m = t.bytes(n);
    sha_one(cx, alg, &m);
}
fn sha64_mid(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = t.size(4000, 200_000);
    let m = t.seeded(n);
    sha_one(cx, [384, 512][(i % 2) as usize], &m);
}
fn sha64_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let alg = *t.pick(&[384u16, 512]);
    let m = gen_msg(t, 128);
    sha_one(cx, alg, &m);
    cx.sample(97, || format!("SHA-{alg} of {}", hex(&m)));
}
fn sha64_big(i: u64, t: &mut Tape, cx: &mut Cx) {
    let m = big_message(i / 2, t);
    sha_one(cx, [384, 512][(i % 2) as usize], &m);
    cx.class("messages of 1 MiB to 70 MiB");
}
fn sha64_zeros(i: u64, _t: &mut Tape, cx: &mut Cx) {
    long_zero(cx, false, &[384, 512], i);
}

// ---------------------------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    rule: "a case is a digest value taken through hex (lower/upper/mixed), words and bytes and compared with plain big-endian conversion, a pair of digests compared for equality, or a text that is not exactly the right number of hex digits and must give an error; distinct by (size, text)",
    scenarios: &[
        Scenario::sweep("hash-bytes", 5 * 64 * 256, 5 * 64 * 256, hash_bytes),
        Scenario::sweep("hash-lengths", 5 * 300, 5 * 3000, hash_lengths),
        Scenario::sweep("hash-badchar", 5 * 256 * 4, 5 * 256 * 16, hash_badchar),
        Scenario::random("hash-random", 6, hash_random),
        Scenario::random("hash-text", 4, hash_text),
    ],
    cap: 1 << 30,
};
const SIZES: [usize; 5] = [20, 28, 32, 48, 64];
fn to_hex(b: &[u8], case: u64) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        let l = format!("{x:02x}");
        let mixed = case >> (i % 60) & 1 == 1;
        s.push_str(&match case {
            0 => l,
            1 => l.to_uppercase(),
            _ if mixed => format!("{}{}", &l[..1].to_uppercase(), &l[1..]),
            _ => format!("{}{}", &l[..1], &l[1..].to_uppercase()),
        });
    }
    s
}
fn value_one(cx: &mut Cx, b: &[u8], case: u64) {
    let n = b.len();
    let s = to_hex(b, case);
    cx.case(&[&[n as u8], s.as_bytes()]);
    let ctx = || format!("{}-bit digest {s}", n * 8);
    let w = if n >= 48 { 8 } else { 4 };
    let words: Vec<u64> = b.chunks(w).map(|c| c.iter().fold(0, |a, &x| a << 8 | x as u64)).collect();
    match cx.must("hex to digest", ctx, || v::hash_from_hex(n, s.as_bytes())) {
        Some(Ok(g)) => {
            cx.eq("digest from hex has other bytes", &g, b, ctx);
        }
        Some(Err(e)) => cx.viol("valid hex rejected", format!("{}: {e}", ctx())),
        None => {}
    }
    match cx.must(&format!("digest to {}-bit words", 8 * w), ctx, || v::hash_words(n, &s)) {
        Some(Ok(g)) => {
            cx.check(g == words, "digest to words changes the value", || format!("{}: {g:x?}", ctx()));
        }
        Some(Err(e)) => cx.viol("valid hex rejected", format!("{}: {e}", ctx())),
        None => {}
    }
    if let Some(g) = cx.must("words to digest", ctx, || v::hash_from_words(n, &words)) {
        cx.eq("words to digest changes the value", &g, b, ctx);
    }
    cx.class(&format!("{}-bit values", 8 * n));
}
fn eq_one(cx: &mut Cx, a: &[u8], b: &[u8], ca: u64, cb: u64) {
    let (x, y) = (to_hex(a, ca), to_hex(b, cb));
    cx.case(&[b"eq", x.as_bytes(), y.as_bytes()]);
    if let Some(r) = cx.must("digest equality", || format!("{x} {y}"), || v::hash_eq(a.len(), &x, &y)) {
        cx.check(r == (a == b), "digest equality is not equality of bytes", || format!("{x} == {y} gave {r}"));
    }
    cx.class(if a == b { "equal pairs" } else { "unequal pairs" });
}
/// text that may or may not be valid for size n
fn text_one(cx: &mut Cx, n: usize, s: &[u8]) {
    cx.case(&[&[n as u8], b"text", s]);
    let valid = s.len() == 2 * n && s.iter().all(|c| c.is_ascii_hexdigit());
    let ctx = || format!("{}-bit digest from text {:?}", 8 * n, String::from_utf8_lossy(s));
    match cx.must("hex parsing", ctx, || v::hash_from_hex(n, s)) {
        Some(Ok(g)) => {
            if !valid {
                cx.viol("text that is not the right number of hex digits accepted", format!("{}: gave {}", ctx(), hex(&g)));
            } else {
                let want: Vec<u8> = s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                cx.eq("digest from hex has other bytes", &g, &want, ctx);
            }
        }
        Some(Err(e)) => {
            if valid {
                cx.viol("valid hex rejected", format!("{}: {e}", ctx()));
            }
        }
        None => {}
    }
    cx.class(if valid { "valid text" } else { "invalid text" });
}
fn hash_bytes(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = SIZES[(i % 5) as usize];
    let p = (i / 5 % 64) as usize % n;
    let val = (i / 320) as u8;
    let mut b = t.seeded(n);
    b[p] = val;
    let c = t.below(3);
    value_one(cx, &b, c);
    let mut d = b.clone();
    d[p] ^= 1 << t.below(8);
    eq_one(cx, &b, &d, 0, c);
    eq_one(cx, &b, &b, 0, c);
}
fn hash_lengths(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = SIZES[(i % 5) as usize];
    let k = (i / 5) as usize;
    let l = if k < 280 { k } else { t.range(0, 600) };
    let s: Vec<u8> = t.seeded(l).iter().map(|b| b"0123456789abcdefABCDEF"[*b as usize % 22]).collect();
    text_one(cx, n, &s);
}
fn hash_badchar(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = SIZES[(i % 5) as usize];
    let c = (i / 5 % 256) as u8;
    let b = t.seeded(n);
    let mut s = to_hex(&b, 0).into_bytes();
    let p = match i / 1280 {
        0 => 0,
        1 => 2 * n - 1,
        _ => t.below(2 * n as u64) as usize,
    };
    s[p] = c;
    text_one(cx, n, &s);
    // also inserted and appended
    let mut s2 = s.clone();
    s2.push(c);
    text_one(cx, n, &s2);
    s2.insert(0, c);
    text_one(cx, n, &s2);
}
fn hash_random(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = *t.pick(&SIZES);
    let b = t.bytes(n);
    let c = t.below(3);
    let c = if c == 2 { t.u64() | 2 } else { c };
    value_one(cx, &b, c);
    let mut d = b.clone();
    if t.chance(1, 2) {
        let p = t.below(n as u64) as usize;
        d[p] = d[p].wrapping_add(t.byte());
    }
    eq_one(cx, &b, &d, c, 0);
    cx.sample(97, || format!("digest {}", to_hex(&b, c)));
}
fn hash_text(_: u64, t: &mut Tape, cx: &mut Cx) {
    let n = *t.pick(&SIZES);
    let raw = t.blob(0, 150);
    let s: Vec<u8> = match t.below(4) {
        0 => raw,
        1 => raw.iter().map(|b| b"0123456789abcdefABCDEFgG xX"[*b as usize % 27]).collect(),
        _ => {
            let b = t.bytes(n);
            let mut s = to_hex(&b, 0).into_bytes();
            let p = t.below(s.len() as u64) as usize;
            match t.below(5) {
                0 => s[p] = t.byte(),
                1 => {
                    s.remove(p);
                }
                2 => s.insert(p, *t.pick(b"0a xg:-+\n")),
                3 => {
                    s.splice(0..0, *b"0x");
                }
                _ => {}
            }
            s
        }
    };
    text_one(cx, n, &s);
}
