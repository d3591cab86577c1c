//! C13 big-integer arithmetic, C14 representation, order and bits.
use crate::engine::*;
use crate::oracle::big::Int;
use std::cmp::Ordering;
use vpcalls as v;

/// big-endian bytes of a structured integer
pub fn gen_int(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.size(0, max);
    let mut b = t.bytes(n);
    if n > 0 {
        match t.below(8) {
            0 => b.fill(0xff),
            1 => {
                b.fill(0);
                b[0] = 1 << t.below(8);
            }
            2 => {
                // a run of ones somewhere
                let (x, y) = (t.below(n as u64) as usize, t.below(n as u64) as usize);
                b[x.min(y)..=x.max(y)].fill(0xff);
            }
            3 => {
                let (x, y) = (t.below(n as u64) as usize, t.below(n as u64) as usize);
                b[x.min(y)..=x.max(y)].fill(0);
            }
            4 => b[0] = 0,
            _ => {}
        }
    }
    b
}
/// another integer related to `a`: nearby, equal length, shifted, or unrelated
fn related(t: &mut Tape, a: &Int, max: usize) -> Int {
    match t.below(8) {
        0 => a.clone(),
        1 => a.add(&Int::from_u128(t.below(300) as u128)),
        2 => {
            let d = Int::from_u128(t.below(300) as u128);
            if a.cmp(&d) == Ordering::Less { d } else { a.sub(&d) }
        }
        3 => {
            let k = a.bits().min(t.below(70));
            a.shr(k)
        }
        4 if a.bits() > 0 => {
            let mut x = a.clone();
            let i = t.below(a.bits());
            let b = x.bit(i);
            x.set_bit(i, !b);
            x
        }
        5 => a.shl(t.below(20)),
        _ => Int::from_be(&gen_int(t, max)),
    }
}
fn big(cx: &mut Cx, i: &Int, style: u64) -> Option<v::Big> {
    let be = i.to_be();
    cx.must("big integer construction", || format!("value {}", hex(&be)), || match style % 4 {
        0 => v::big_be(&be),
        1 => {
            let mut z = vec![0; (style / 4 % 5) as usize];
            z.extend_from_slice(&be);
            v::big_be(&z)
        }
        2 => {
            let mut z: Vec<u8> = be.iter().rev().copied().collect();
            z.resize(z.len() + (style / 4 % 5) as usize, 0);
            v::big_le(&z)
        }
        _ => match i.to_u128() {
            Some(u) => v::big_u128(u),
            None => v::big_be(&be),
        },
    })
}
/// The value with zero bytes above it in store, left there by clearing the bits of a longer number.
fn roomy(cx: &mut Cx, i: &Int, extra: usize, fill: u8) -> Option<v::Big> {
    let mut be = vec![fill.max(1); extra];
    let n = i.to_be();
    be.extend_from_slice(&n);
    let low = n.len() as u32 * 8;
    cx.must("clearing the high bits of a number", || format!("value {} below {extra} bytes", hex(&n)), || {
        let mut x = v::big_be(&be);
        for k in (low..low + extra as u32 * 8).rev() {
            // (room may be given back as it becomes empty)
            if v::big_is_set(&x, k) {
                v::big_update(&mut x, k, false);
            }
        }
        x
    })
}
fn same(cx: &mut Cx, sig: &str, got: &v::Big, want: &Int, ctx: &dyn Fn() -> String) -> bool {
    let Some(g) = cx.must(sig, || format!("{} (reading the result)", ctx()), || v::big_to_be(got)) else { return false };
    // judged by value here; representation is C14's
    if Int::from_be(&g) != *want {
        cx.viol(sig, format!("{}: got {} want {}", ctx(), hex(&g), hex(&want.to_be())));
        return false;
    }
    true
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "a case is one arithmetic operation on two integers, or a program of operations on four registers whose values are compared with a reference integer after every step; operands are random, structured (carry and borrow chains, powers of two, near-equal) or exhaustive (all pairs below 2^9 and selected two-byte pairs); subtraction of a larger number and remainder by zero must be refused; distinct by (operation, operands)",
    scenarios: &[
        Scenario::sweep("arith-pairs", 1024, 1024, arith_pairs),
        Scenario::sweep("arith-edges", 4000, 60000, arith_edges),
        Scenario::sweep("arith-shift", 2600, 20000, arith_shift),
        Scenario::sweep("arith-wide", 48, 400, arith_wide),
        Scenario::heavy_plain("arith-rem-wide", 8, 40, arith_rem_wide),
        Scenario::heavy_plain("arith-huge", 4, 8, arith_huge),
        Scenario::sweep("arith-roomy", 600, 6000, arith_roomy),
        Scenario::random("arith-ops", 6, arith_ops),
        Scenario::random("arith-program", 4, arith_program),
    ],
    cap: 8 << 30,
};

fn op_one(cx: &mut Cx, op: u8, a: &Int, b: &Int, n: u32, style: u64) {
    op_two(cx, op, a, b, n, style, style / 20)
}
fn op_two(cx: &mut Cx, op: u8, a: &Int, b: &Int, n: u32, style: u64, style_b: u64) {
    const NAMES: [&str; 7] = ["add", "sub", "rem", "shl", "shr", "add u8", "sub (by value)"];
    let name = NAMES[op as usize];
    cx.case(&[&[op], &a.to_be(), &b.to_be(), &n.to_le_bytes()]);
    let ctx = || format!("{name}: a={} b={} n={n}", hex(&a.to_be()), hex(&b.to_be()));
    // now and then with room above the value
    let make = |cx: &mut Cx, i: &Int, st: u64| if st % 11 == 10 { roomy(cx, i, 1 + (st / 11 % 24) as usize, (st >> 32) as u8) } else { big(cx, i, st) };
    let Some(mut x) = make(cx, a, style) else { return };
    let Some(y) = make(cx, b, style_b) else { return };
    let refuse = match op {
        1 | 6 => a.cmp(b) == Ordering::Less,
        2 => b.is_zero(),
        _ => false,
    };
    if refuse {
        cx.class(&format!("{name}: must be refused"));
        let r = cx.call(|| match op {
            1 => {
                v::big_sub(&mut x, &y);
                v::big_to_be(&x)
            }
            6 => v::big_to_be(&v::big_sub_val(x, &y)),
            _ => {
                v::big_rem(&mut x, &y);
                v::big_to_be(&x)
            }
        });
        if let Ok(g) = r {
            cx.viol(if op == 2 { "remainder by zero not refused" } else { "subtraction of a larger number not refused" }, format!("{}: gave {}", ctx(), hex(&g)));
        }
        return;
    }
    let want = match op {
        0 => a.add(b),
        1 | 6 => a.sub(b),
        2 => a.rem(b),
        3 => a.shl(n as u64),
        4 => a.shr(n as u64),
        _ => a.add(&Int::from_u128((n & 255) as u128)),
    };
    let r = cx.must(name, ctx, || match op {
        0 => v::big_add(&mut x, &y),
        1 => v::big_sub(&mut x, &y),
        2 => v::big_rem(&mut x, &y),
        3 => v::big_shl(&mut x, n),
        4 => v::big_shr(&mut x, n),
        5 => v::big_add_u8(&mut x, n as u8),
        _ => x = v::big_sub_val(x.clone(), &y),
    });
    cx.class(name);
    if r.is_some() && same(cx, &format!("{name}: wrong result"), &x, &want, &ctx) {
        // the right operand is untouched
        same(cx, &format!("{name}: right operand changed"), &y, b, &ctx);
    }
}
fn arith_pairs(i: u64, _t: &mut Tape, cx: &mut Cx) {
    // all pairs a < 512, b < 512
    let a = Int::from_u128((i % 512) as u128);
    let lo = (i / 512) * 256;
    for b in lo..lo + 256 {
        let b = Int::from_u128(b as u128);
        for op in [0, 1, 2] {
            op_one(cx, op, &a, &b, 0, 0);
        }
    }
}
fn arith_edges(i: u64, t: &mut Tape, cx: &mut Cx) {
    // values next to powers of two
    let e = |t: &mut Tape| {
        let k = t.below(600);
        let p = Int::from_u128(1).shl(k);
        match t.below(4) {
            0 => p,
            1 => p.dec(),
            2 => p.add(&Int::from_u128(1)),
            _ => {
                let j = t.below(k + 1);
                let q = Int::from_u128(1).shl(j);
                if t.chance(1, 2) { p.add(&q) } else { p.sub(&q) }
            }
        }
    };
    let a = e(t);
    let b = if i % 3 == 0 { related(t, &a, 80) } else { e(t) };
    for op in [0, 1, 2, 6] {
        let st = t.u64();
        op_one(cx, op, &a, &b, 0, st);
        op_one(cx, op, &b, &a, 0, st);
    }
    let m = t.byte() as u32;
    op_one(cx, 5, &a, &b, m, 0);
}
fn arith_shift(i: u64, t: &mut Tape, cx: &mut Cx) {
    let n = (i % 1300) as u32;
    let n = if n < 700 { n } else { t.size(0, 70_000) as u32 };
    for k in 0..3 {
        let a = if k == 0 && i % 7 == 0 { Int::zero() } else { Int::from_be(&gen_int(t, 90)) };
        let st = t.u64();
        op_one(cx, 3, &a, &Int::zero(), n, st);
        op_one(cx, 4, &a, &Int::zero(), n, st);
        // shift by nearly its own length
        let m = (a.bits() + t.below(24)).saturating_sub(12) as u32;
        op_one(cx, 4, &a, &Int::zero(), m, st);
    }
    if i < 8 {
        let big = [u32::MAX, u32::MAX - 7, 1 << 31, (1 << 31) + 5, 1 << 24, (1 << 20) + 3, u32::MAX - 8, 65536][i as usize];
        let a = Int::from_be(&gen_int(t, 40));
        op_one(cx, 4, &a, &Int::zero(), big, 0);
        op_one(cx, 4, &Int::zero(), &Int::zero(), big, 0);
        if big <= 1 << 25 {
            op_one(cx, 3, &a, &Int::zero(), big, 0);
        }
        cx.class("shift amounts above 2^16");
    }
}
fn wide(t: &mut Tape, bytes: usize) -> Int {
    let mut b = match t.below(4) {
        0 => vec![0xff; bytes],
        1 => vec![0; bytes],
        _ => t.seeded(bytes),
    };
    b[0] |= 1;
    if t.chance(1, 2) {
        let k = t.range(0, bytes - 1);
        let run = t.range(0, bytes - 1 - k);
        b[k..k + run].fill(if t.chance(1, 2) { 0xff } else { 0 });
        b[0] |= 1;
    }
    Int::from_be(&b)
}
fn arith_wide(i: u64, t: &mut Tape, cx: &mut Cx) {
    // operands of 2^8, 2^13, 2^16 bytes and their neighbours; quotients stay short
    let len = [256usize, 1024, 8192, 65536, 256, 1 << 20, 8192, 65536][(i % 8) as usize] + t.range(0, 3) - 1;
    let a = wide(t, len);
    let b = match i / 8 % 4 {
        0 => related(t, &a, 80),
        1 => a.sub(&Int::from_u128(t.below(3) as u128 + 1)),
        2 => a.shr(t.below(40)),
        _ => {
            let l = t.range(1, len);
            wide(t, l)
        }
    };
    for op in [0, 1, 6] {
        let st = t.u64();
        op_one(cx, op, &a, &b, 0, st);
        op_one(cx, op, &b, &a, 0, st);
    }
    if !b.is_zero() && a.bits().abs_diff(b.bits()) < 100 {
        op_one(cx, 2, &a, &b, 0, 0);
    }
    op_one(cx, 5, &a, &b, 255, 0);
    let n = t.size(0, 9 * len) as u32;
    op_one(cx, 3, &a, &b, n, 0);
    op_one(cx, 4, &a, &b, n, 0);
    cx.class("operands of 255 bytes to 1 MiB");
}
fn arith_rem_wide(i: u64, t: &mut Tape, cx: &mut Cx) {
    // quotients of more than 2^16 bits (two of the items), 2^15, 2^13
    let len = [8200usize, 4100, 1030, 2050][(i % 4) as usize];
    let a = wide(t, len);
    let b = if i % 2 == 0 { Int::from_be(&gen_int(t, 9)) } else { wide(t, 20) };
    let b = if b.is_zero() { Int::from_u128(3) } else { b };
    op_one(cx, 2, &a, &b, 0, 0);
    cx.class("remainders with quotients above 2^12 bits");
}
/// numbers of nearly 2^32 bits; the expected bytes are written down directly
fn arith_huge(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = (1usize << 29) - 3 - t.range(0, 5);
    let low = t.u64() | 1;
    let top = 1 + t.below(7) as u8;
    // little-endian: low word, zeros (or ones), top byte
    let ones = i % 4 == 1 || i % 4 == 3;
    let make = |low: u64, mid: u8, top: u8| {
        let mut b = vec![mid; len];
        b[..8].copy_from_slice(&low.to_le_bytes());
        b[len - 1] = top;
        b
    };
    let mid = if ones { 0xff } else { 0 };
    let ctx = |what: &str| format!("{what}: a number of {len} bytes, top byte {top}, others {mid:#x}, low word {low:#x}");
    cx.case(&[b"huge", &i.to_le_bytes(), &low.to_le_bytes(), &[top], &(len as u64).to_le_bytes()]);
    let Some(a) = cx.must("big integer construction", || ctx("reading"), || v::big_le(&make(low, mid, top))) else { return };
    let look = |cx: &mut Cx, x: &v::Big, mut want: Vec<u8>, what: &str| {
        while want.last() == Some(&0) {
            want.pop();
        }
        if let Some(mut g) = cx.must(what, || ctx(what), || v::big_to_be(x)) {
            g.reverse();
            while g.last() == Some(&0) {
                g.pop();
            }
            if g != want {
                let k = g.iter().zip(&want).position(|(a, b)| a != b);
                cx.viol(&format!("{what}: wrong result"), format!("{}: {} bytes instead of {}, first difference at {k:?}", ctx(what), g.len(), want.len()));
            }
        }
    };
    match i % 4 {
        0 | 1 => {
            // plus a word that carries out of the low word, all the way up if the rest is ones
            let d = 0u64.wrapping_sub(low);
            let mut x = a;
            let y = v::big_u128(d as u128);
            cx.must("add", || ctx("add"), || v::big_add(&mut x, &y));
            let (m, tp) = if ones { (0, top + 1) } else { (0, top) };
            let mut want = make(0, m, tp);
            if !ones {
                want[8] = 1;
            }
            look(cx, &x, want, "add");
            // and back
            cx.must("sub", || ctx("sub"), || v::big_sub(&mut x, &y));
            look(cx, &x, make(low, mid, top), "sub");
        }
        2 => {
            let mut x = a;
            cx.must("shl", || ctx("shl"), || v::big_shl(&mut x, 13));
            let mut want = make(low, mid, top);
            want.extend([0, 0]);
            let mut c = 0u8;
            for b in want.iter_mut() {
                let n = *b << 5 | c;
                c = *b >> 3;
                *b = n;
            }
            want.insert(0, 0);
            look(cx, &x, want, "shl");
            cx.must("shr", || ctx("shr"), || v::big_shr(&mut x, 13));
            look(cx, &x, make(low, mid, top), "shr");
        }
        _ => {
            let bits = len as u32 * 8 - top.leading_zeros();
            let n = bits - 2;
            let mut x = a;
            cx.must("shr", || ctx("shr by nearly everything"), || v::big_shr(&mut x, n));
            let want = Int::from_u128((top as u128) << 8 | 0xff).shr((n as u64).saturating_sub((len as u64 - 2) * 8)).to_be();
            look(cx, &x, want.into_iter().rev().collect(), "shr");
            let mut x = v::big_u128(5);
            cx.must("shl", || ctx("5 shifted up"), || v::big_shl(&mut x, n - 3));
            let mut want = vec![0u8; len + 2];
            let k = (n - 3) as usize;
            want[k / 8] = (5u16 << (k % 8)) as u8;
            want[k / 8 + 1] = (5u16 << (k % 8) >> 8) as u8;
            look(cx, &x, want, "shl");
        }
    }
    cx.class("numbers of nearly 2^32 bits");
}
/// Every operation on numbers with 0 to 25 zero bytes above them, in every combination.
fn arith_roomy(i: u64, t: &mut Tape, cx: &mut Cx) {
    let (ra, rb) = (i % 26, i / 26 % 26);
    for op in 0..7 {
        for _ in 0..4 {
            let max = *t.pick(&[1, 4, 16, 17, 24, 40]);
            let a = Int::from_be(&gen_int(t, max));
            let b = related(t, &a, max);
            let style = |r: u64, t: &mut Tape| if r == 0 { t.below(10) } else { 10 + 11 * (r - 1) };
            let (sa, sb) = (style(ra, t), style(rb, t));
            op_two(cx, op, &a, &b, t.below(300) as u32, sa, sb);
        }
    }
    cx.class("operands with room above the value");
}
fn arith_ops(_: u64, t: &mut Tape, cx: &mut Cx) {
    let max = if t.chance(1, 8) { 600 } else { 40 };
    let a = Int::from_be(&gen_int(t, max));
    let b = related(t, &a, max);
    let op = t.below(7) as u8;
    let n = match op {
        3 | 4 => t.size(0, 900) as u32,
        _ => t.byte() as u32,
    };
    let st = t.u64();
    op_one(cx, op, &a, &b, n, st);
    if op == 2 && !b.is_zero() {
        // also with a multiple of b plus a little
        let k = Int::from_be(&gen_int(t, 12));
        let c = b.mul(&k).add(&Int::from_u128(t.below(3) as u128));
        op_one(cx, 2, &c, &b, 0, st);
    }
    cx.sample(197, || format!("op {op} a={} b={} n={n}", hex(&a.to_be()), hex(&b.to_be())));
}
fn arith_program(_: u64, t: &mut Tape, cx: &mut Cx) {
    let mut rf: Vec<Int> = vec![];
    let mut rg: Vec<v::Big> = vec![];
    let max = t.size(1, 60);
    for k in 0..4 {
        let i = Int::from_be(&gen_int(t, max));
        let Some(b) = big(cx, &i, k) else { return };
        rf.push(i);
        rg.push(b);
    }
    let steps = t.size(1, 40);
    let mut log = format!("registers {:?}", rf.iter().map(|r| hex(&r.to_be())).collect::<Vec<_>>());
    for _ in 0..steps {
        let (i, j) = (t.below(4) as usize, t.below(4) as usize);
        if t.chance(1, 6) && !rf[i].is_zero() {
            // change bits inside the value; clearing from the top leaves room
            let top = rf[i].bits();
            let k = t.size(1, 200).min(top as usize) as u64;
            let (ks, set): (Vec<u64>, bool) = if t.chance(1, 2) { ((top - k..top).rev().collect(), false) } else { (vec![t.below(top)], true) };
            log.push_str(&format!("; r{i} bits {ks:?} = {set}"));
            let mut x = rg[i].clone();
            if cx.must("bit update", || log.clone(), || ks.iter().for_each(|&k| if v::big_is_set(&x, k as u32) != set { v::big_update(&mut x, k as u32, set) })).is_none() {
                return;
            }
            ks.iter().for_each(|&k| rf[i].set_bit(k, set));
            rg[i] = x;
            if !same(cx, "bit update: wrong result", &rg[i], &rf[i], &|| log.clone()) {
                return;
            }
        }
        let op = t.below(6);
        let n = t.size(0, 40) as u32;
        let src = rg[j].clone();
        let (name, want): (String, Option<Int>) = match op {
            0 => (format!("r{i} += r{j}"), Some(rf[i].add(&rf[j]))),
            1 => (format!("r{i} -= r{j}"), if rf[i].cmp(&rf[j]) == Ordering::Less { None } else { Some(rf[i].sub(&rf[j])) }),
            2 => (format!("r{i} %= r{j}"), if rf[j].is_zero() { None } else { Some(rf[i].rem(&rf[j])) }),
            3 => (format!("r{i} <<= {n}"), Some(rf[i].shl(n as u64))),
            4 => (format!("r{i} >>= {n}"), Some(rf[i].shr(n as u64))),
            _ => (format!("r{i} += {}u8", n as u8), Some(rf[i].add(&Int::from_u128(n as u8 as u128)))),
        };
        log.push_str("; ");
        log.push_str(&name);
        let mut x = rg[i].clone();
        let r = cx.call(|| match op {
            0 => v::big_add(&mut x, &src),
            1 => v::big_sub(&mut x, &src),
            2 => v::big_rem(&mut x, &src),
            3 => v::big_shl(&mut x, n),
            4 => v::big_shr(&mut x, n),
            _ => v::big_add_u8(&mut x, n as u8),
        });
        cx.class("program steps");
        const N: [&str; 6] = ["add", "sub", "rem", "shl", "shr", "add u8"];
        match (want, r) {
            (None, Ok(())) => {
                cx.viol(if op == 2 { "remainder by zero not refused" } else { "subtraction of a larger number not refused" }, log.clone());
                return;
            }
            (None, Err(_)) => {} // refused; the register keeps its old value in both
            (Some(_), Err(e)) => {
                cx.viol(&format!("{}: panic", N[op as usize]), format!("{log}: {e}"));
                return;
            }
            (Some(w), Ok(())) => {
                if !same(cx, &format!("{}: wrong result", N[op as usize]), &x, &w, &|| log.clone()) {
                    return;
                }
                if w.bits() > 40_000 {
                    break;
                }
                rf[i] = w;
                rg[i] = x;
            }
        }
    }
    cx.case(&[log.as_bytes()]);
}

// ---------------------------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14",
    rule: "a case is a value built in several ways (bytes in either order with leading zeros, native integer, results of arithmetic, bit updates) whose written form, bit count, bits, narrowing, order and equality against other values are compared with a reference integer; all values below 2^16 exhaustively, lengths and leading zeros around 2^8 to 2^21 bytes, values of nearly 2^32 bits; distinct by (value, how produced)",
    scenarios: &[
        Scenario::sweep("repr-small", 65536 / 64, 65536 / 64, repr_small),
        Scenario::sweep("repr-u128", 3000, 30000, repr_u128),
        Scenario::sweep("repr-cmp", 512, 512, cmp_small),
        Scenario::sweep("repr-wide", 96, 480, repr_wide),
        Scenario::heavy_plain("repr-huge", 2, 4, repr_huge),
        Scenario::random("repr-bytes", 4, repr_bytes),
        Scenario::random("repr-order", 5, repr_order),
        Scenario::random("repr-update", 5, repr_update),
        Scenario::random("repr-computed", 5, repr_computed),
    ],
    cap: 6 << 30,
};
/// every observation of `x` agrees with `want`
fn observe(cx: &mut Cx, x: &v::Big, want: &Int, ctx: &dyn Fn() -> String) {
    let be = want.to_be();
    if let Some(g) = cx.must("to_be_bytes", ctx, || v::big_to_be(x)) {
        let strip: Vec<u8> = g.iter().copied().skip_while(|&b| b == 0).collect();
        if strip != be {
            cx.viol("written form has another value", format!("{}: got {} want {}", ctx(), hex(&g), hex(&be)));
        } else if g != be {
            cx.viol("written form has leading zero bytes", format!("{}: {}", ctx(), hex(&g)));
        }
    }
    if let Some(n) = cx.must("bits_used", ctx, || v::big_bits(x)) {
        cx.check(n as u64 == want.bits(), "bit count is wrong", || format!("{}: {n} instead of {}", ctx(), want.bits()));
    }
    if let Some(r) = cx.must("as_u128", ctx, || v::big_as_u128(x)) {
        match (r, want.to_u128()) {
            (Ok(a), Some(b)) if a == b => {}
            (Err(_), None) => {}
            (g, w) => cx.viol("narrowing to 128 bits is wrong", format!("{}: got {g:?} want {w:?}", ctx())),
        }
    }
    let n = want.bits();
    let mut idx: Vec<u64> = if n <= 64 { (0..n + 10).collect() } else { (0..16).chain(n - 16..n + 10).collect() };
    idx.extend([n + 7, n + 8, n + 64, 4096, u32::MAX as u64]);
    let bad = cx.must("is_set", ctx, || idx.iter().find(|&&i| v::big_is_set(x, i as u32) != want.bit(i)).copied());
    if let Some(Some(i)) = bad {
        cx.viol("bit test is wrong", format!("{}: bit {i}", ctx()));
    }
}
fn all_bits(cx: &mut Cx, x: &v::Big, want: &Int, ctx: &dyn Fn() -> String) {
    let n = want.bits();
    let bad = cx.must("is_set", ctx, || (0..n + 9).find(|&i| v::big_is_set(x, i as u32) != want.bit(i)));
    if let Some(Some(i)) = bad {
        cx.viol("bit test is wrong", format!("{}: bit {i}", ctx()));
    }
}
fn order(cx: &mut Cx, x: &v::Big, y: &v::Big, a: &Int, b: &Int, ctx: &dyn Fn() -> String) {
    let w = a.cmp(b);
    let Some((c, p, eq, lt, le)) = cx.must("comparison", ctx, || v::big_cmp(x, y)) else { return };
    cx.check(c == w, "comparison is not the numeric order", || format!("{}: {c:?} instead of {w:?}", ctx()));
    cx.check(p == Some(c) && lt == (c == Ordering::Less) && le == (c != Ordering::Greater), "comparison operators disagree", || format!("{}: {c:?} {p:?} {lt} {le}", ctx()));
    cx.check(eq == (w == Ordering::Equal), "equality is not numeric equality", || format!("{}: {eq} instead of {}", ctx(), w == Ordering::Equal));
    cx.class(match w {
        Ordering::Equal => "equal pairs",
        _ => "unequal pairs",
    });
}
fn repr_small(i: u64, _t: &mut Tape, cx: &mut Cx) {
    for k in 0..64 {
        let n = i * 64 + k;
        let want = Int::from_u128(n as u128);
        cx.case(&[&n.to_le_bytes()]);
        for style in [0, 1 + 4, 2, 2 + 8, 3] {
            let Some(x) = big(cx, &want, style) else { return };
            observe(cx, &x, &want, &|| format!("{n} built in way {style}"));
        }
    }
    cx.class_n("values below 2^16", 64);
}
fn repr_u128(i: u64, t: &mut Tape, cx: &mut Cx) {
    let k = (i % 129) as u32;
    let p = if k == 128 { 0 } else { 1u128 << k };
    for n in [p, p.wrapping_sub(1), p.wrapping_add(1), p | (t.u64() as u128) << t.below(65).min(64)] {
        let want = Int::from_u128(n);
        cx.case(&[&n.to_le_bytes()]);
        if let Some(x) = cx.must("from u128", || format!("{n:#x}"), || v::big_u128(n)) {
            observe(cx, &x, &want, &|| format!("from u128 {n:#x}"));
            if let Some(y) = big(cx, &want, t.u64()) {
                order(cx, &x, &y, &want, &want, &|| format!("{n:#x} built in two ways"));
            }
        }
    }
    // just above 128 bits
    let over = Int::from_u128(1).shl(128).add(&Int::from_u128(t.u64() as u128));
    if let Some(x) = big(cx, &over, 0) {
        observe(cx, &x, &over, &|| format!("{}", hex(&over.to_be())));
    }
    cx.class("powers of two around");
}
fn cmp_small(i: u64, _t: &mut Tape, cx: &mut Cx) {
    let a = Int::from_u128(i as u128 + if i >= 256 { 65200 } else { 0 });
    let Some(x) = big(cx, &a, i) else { return };
    for j in 0..600u64 {
        let b = Int::from_u128(j as u128 + if j >= 300 { 65000 } else { 0 });
        let Some(y) = big(cx, &b, j) else { return };
        cx.case(&[&a.to_be(), b"?", &b.to_be()]);
        order(cx, &x, &y, &a, &b, &|| format!("{} ? {}", hex(&a.to_be()), hex(&b.to_be())));
    }
}
/// lengths and leading-zero counts around the widths at which a narrower counter wraps
fn repr_wide(i: u64, t: &mut Tape, cx: &mut Cx) {
    const MARK: [usize; 8] = [256, 65536, 8192, 1 << 21, 32768, 1 << 20, 1 << 13, 2048];
    let near = |t: &mut Tape, m: usize| m + t.range(0, 4) - 2;
    // value length, zeros in front (be) or behind (le)
    let (len, zeros) = match i % 3 {
        0 => (near(t, MARK[(i / 3 % 8) as usize]), t.range(0, 3)),
        1 => (t.range(1, 40), near(t, MARK[(i / 3 % 8) as usize])),
        _ => {
            let m = MARK[(i / 3 % 8) as usize];
            let k = t.range(1, m - 1);
            (k, near(t, m).saturating_sub(k))
        }
    };
    let mut b = t.seeded(len);
    match t.below(4) {
        0 => b.fill(0xff),
        1 => b.fill(0),
        _ => {}
    }
    b[0] = if t.chance(1, 2) { 1 } else { b[0] | 1 };
    if t.chance(1, 3) && len > 4 {
        // zeros inside the value, next to its top byte
        let n = near(t, MARK[(i / 24 % 8) as usize]).min(len - 2);
        b[1..1 + n].fill(0);
    }
    let want = Int::from_be(&b);
    let ctx = || format!("item {i}: a value of {len} bytes with {zeros} zero bytes above it");
    cx.case(&[b"wide", &i.to_le_bytes(), &(len as u64).to_le_bytes(), &(zeros as u64).to_le_bytes(), &b[..len.min(64)]]);
    let mut be = vec![0; zeros];
    be.extend_from_slice(&b);
    let le: Vec<u8> = be.iter().rev().copied().collect();
    let (x, y) = (cx.must("from_be_bytes", ctx, || v::big_be(&be)), cx.must("from_le_bytes", ctx, || v::big_le(&le)));
    let (Some(mut x), Some(y)) = (x, y) else { return };
    let n = want.bits();
    for (w, x) in [("big-endian", &x), ("little-endian", &y)] {
        observe(cx, x, &want, &|| format!("{}, read {w}", ctx()));
        let bad = cx.must("is_set", ctx, || (0..64).map(|k| (k * 7919 + i * 31) * 1021 % (n + 64)).find(|&k| v::big_is_set(x, k as u32) != want.bit(k)));
        if let Some(Some(k)) = bad {
            cx.viol("bit test is wrong", format!("{}: bit {k}", ctx()));
        }
    }
    order(cx, &x, &y, &want, &want, &ctx);
    // against a value that differs in one byte, is shorter, or is longer
    let k = match t.below(4) {
        0 => 0,
        1 => len - 1,
        2 => len.saturating_sub(near(t, MARK[(i / 3 % 8) as usize])),
        _ => t.range(0, len - 1),
    };
    let mut c = b.clone();
    c[k] ^= 1 << t.below(8);
    for c in [&c[..], &b[..len - 1], &[b"\x01", &b[..]].concat()[..]] {
        let o = Int::from_be(c);
        let Some(z) = cx.must("from_be_bytes", ctx, || v::big_be(c)) else { return };
        let cc = || format!("{}, against one of {} bytes (byte {k} changed if as long)", ctx(), c.len());
        order(cx, &x, &z, &want, &o, &cc);
        order(cx, &z, &x, &o, &want, &cc);
    }
    // bit updates
    let mut want = want;
    for _ in 0..4 {
        if want.is_zero() {
            break;
        }
        let p = match t.below(3) {
            0 => 0,
            1 => want.bits().max(1) - 1,
            _ => t.below(want.bytes() as u64 * 8),
        };
        let set = t.chance(1, 2);
        let cc = || format!("{}, bit {p} = {set}", ctx());
        if cx.must("bit update inside the stored width", cc, || v::big_update(&mut x, p as u32, set)).is_none() {
            return;
        }
        want.set_bit(p, set);
        observe(cx, &x, &want, &cc);
    }
    cx.class("values or leading zeros around 2^8 to 2^21 bytes");
}
/// as many bits as the bit count can express
fn repr_huge(i: u64, t: &mut Tape, cx: &mut Cx) {
    let len = (1usize << 29) - 1 - [0, 1, 1 << 28, 77][(i % 4) as usize];
    let zeros = [3usize, 1 << 28, 70_000, 1][(i % 4) as usize];
    let mut be = vec![0u8; zeros + len];
    be[zeros] = 0x80 >> t.below(8);
    let at = t.range(1, 70_000); // near the top: comparing is bit by bit
    be[zeros + at] = 0x5a;
    be[zeros + len - 1] = 3;
    let ctx = || format!("a value of {len} bytes with {zeros} zero bytes above it, byte {at} is 5a");
    cx.case(&[b"huge", &i.to_le_bytes(), &(at as u64).to_le_bytes(), &be[zeros..zeros + 1]]);
    let bits = len as u64 * 8 - be[zeros].leading_zeros() as u64;
    let Some(x) = cx.must("from_be_bytes", ctx, || v::big_be(&be)) else { return };
    let look = |cx: &mut Cx, x: &v::Big, be: &[u8], how: &str| {
        let cc = || format!("{}, {how}", ctx());
        if let Some(n) = cx.must("bits_used", cc, || v::big_bits(x)) {
            cx.check(n as u64 == bits, "bit count is wrong", || format!("{}: {n} instead of {bits}", cc()));
        }
        if let Some(g) = cx.must("to_be_bytes", cc, || v::big_to_be(x)) {
            cx.check(g == be[zeros..], "written form has another value", || format!("{}: {} bytes", cc(), g.len()));
        }
        if let Some(r) = cx.must("as_u128", cc, || v::big_as_u128(x)) {
            cx.check(r.is_err(), "narrowing to 128 bits is wrong", || format!("{}: {r:?}", cc()));
        }
        let low = (len - 1 - at) as u64 * 8;
        let idx: Vec<u64> = (0..10).chain(low..low + 8).chain(bits - 10..bits + 10).chain([u32::MAX as u64]).filter(|&k| k <= u32::MAX as u64).collect();
        let is = |k: u64| be.len() as u64 * 8 > k && be[be.len() - 1 - (k / 8) as usize] >> (k % 8) & 1 == 1;
        if let Some(Some(k)) = cx.must("is_set", cc, || idx.iter().find(|&&k| v::big_is_set(x, k as u32) != is(k)).copied()) {
            cx.viol("bit test is wrong", format!("{}: bit {k}", cc()));
        }
    };
    look(cx, &x, &be, "read big-endian");
    be.reverse();
    let Some(y) = cx.must("from_le_bytes", ctx, || v::big_le(&be)) else { return };
    be.reverse();
    look(cx, &y, &be, "read little-endian");
    let pair = |cx: &mut Cx, x: &v::Big, y: &v::Big, w: Ordering, how: &str| {
        if let Some((c, p, eq, lt, le)) = cx.must("comparison", || format!("{}: {how}", ctx()), || v::big_cmp(x, y)) {
            let good = c == w && p == Some(w) && eq == (w == Ordering::Equal) && lt == (w == Ordering::Less) && le == (w != Ordering::Greater);
            cx.check(good, "comparison is not the numeric order", || format!("{}: {how}: {c:?} {p:?} {eq} {lt} {le}", ctx()));
        }
    };
    let mut y = y;
    let k = (len - 1 - at) as u64 * 8 + 2; // a bit of 5a that is clear
    if cx.must("bit update inside the stored width", ctx, || v::big_update(&mut y, k as u32, true)).is_some() {
        be[zeros + at] = 0x5e;
        look(cx, &y, &be, "after a bit update");
        pair(cx, &x, &y, Ordering::Less, "before and after a bit update");
        pair(cx, &y, &x, Ordering::Greater, "after and before a bit update");
    }
    cx.class("values of nearly 2^32 bits");
}
fn repr_bytes(_: u64, t: &mut Tape, cx: &mut Cx) {
    let mut b = gen_int(t, 80);
    for _ in 0..t.below(5) {
        b.insert(0, 0);
    }
    cx.case(&[b"bytes", &b]);
    let le: Vec<u8> = b.iter().rev().copied().collect();
    let want = Int::from_be(&b);
    let ctx = || format!("bytes {}", hex(&b));
    let (x, y) = (cx.must("from_be_bytes", ctx, || v::big_be(&b)), cx.must("from_le_bytes", ctx, || v::big_le(&le)));
    let (Some(x), Some(y)) = (x, y) else { return };
    observe(cx, &x, &want, &|| format!("from_be_bytes {}", hex(&b)));
    observe(cx, &y, &want, &|| format!("from_le_bytes {}", hex(&le)));
    all_bits(cx, &x, &want, &ctx);
    order(cx, &x, &y, &want, &want, &ctx);
    cx.class("byte strings");
    cx.sample(97, || format!("bytes {}", hex(&b)));
}
fn repr_order(_: u64, t: &mut Tape, cx: &mut Cx) {
    let a = Int::from_be(&gen_int(t, 60));
    let b = related(t, &a, 60);
    cx.case(&[&a.to_be(), b"?", &b.to_be()]);
    let (s, u) = (t.u64(), t.u64());
    let (Some(x), Some(y)) = (big(cx, &a, s), big(cx, &b, u)) else { return };
    order(cx, &x, &y, &a, &b, &|| format!("{} ? {}", hex(&a.to_be()), hex(&b.to_be())));
    order(cx, &y, &x, &b, &a, &|| format!("{} ? {}", hex(&b.to_be()), hex(&a.to_be())));
}
fn repr_update(_: u64, t: &mut Tape, cx: &mut Cx) {
    let b = gen_int(t, 40);
    let mut want = Int::from_be(&b);
    if want.is_zero() {
        return;
    }
    let width = want.bytes() as u64 * 8;
    let Some(mut x) = big(cx, &want, t.u64()) else { return };
    let mut log = format!("start {}", hex(&want.to_be()));
    for _ in 0..t.range(1, 8) {
        // the stored width only covers bytes that were there to begin with
        let top = want.bits();
        let i = match t.below(4) {
            0 if top > 0 => top - 1,
            1 => width - 1 - t.below(width.min(8)),
            _ => t.below(width),
        };
        let set = t.chance(1, 2);
        log.push_str(&format!("; bit {i} = {set}"));
        let l = log.clone();
        let stored = want.bytes() as u64 * 8;
        match cx.call(|| v::big_update(&mut x, i as u32, set)) {
            Ok(()) => {
                want.set_bit(i, set);
                observe(cx, &x, &want, &|| l.clone());
                all_bits(cx, &x, &want, &|| l.clone());
            }
            Err(e) => {
                // refusing is only right if an earlier update made the top bytes zero and the
                // implementation gave that room back
                if i < stored {
                    cx.viol("bit update inside the stored width: panic", format!("{l}: {e}"));
                }
                return;
            }
        }
        if !cx.viols.is_empty() {
            return;
        }
    }
    cx.case(&[log.as_bytes()]);
    cx.class("bit updates");
    // equality with the same value read from bytes, order against others after updates
    if let Some(y) = big(cx, &want, t.u64()) {
        order(cx, &x, &y, &want, &want, &|| log.clone());
        order(cx, &y, &x, &want, &want, &|| log.clone());
    }
    let o = related(t, &want, 40);
    if let Some(y) = big(cx, &o, 0) {
        let w = want.cmp(&o);
        if let Some((c, ..)) = cx.must("comparison", || log.clone(), || v::big_cmp(&x, &y)) {
            cx.check(c == w, "comparison is not the numeric order", || format!("{log} ? {}: {c:?}", hex(&o.to_be())));
        }
    }
}
fn repr_computed(_: u64, t: &mut Tape, cx: &mut Cx) {
    // the same value reached by arithmetic and by conversion
    let a = Int::from_be(&gen_int(t, 40));
    let b = related(t, &a, 40);
    let n = t.size(0, 80) as u32;
    let op = t.below(6);
    let mut make = |cx: &mut Cx, i: &Int| if t.chance(1, 4) { roomy(cx, i, t.size(1, 24), t.byte()) } else { big(cx, i, t.u64()) };
    let (Some(mut x), Some(y)) = (make(cx, &a), make(cx, &b)) else { return };
    let want = match op {
        0 => a.add(&b),
        1 => {
            if a.cmp(&b) == Ordering::Less {
                return;
            }
            a.sub(&b)
        }
        2 => {
            if b.is_zero() {
                return;
            }
            a.rem(&b)
        }
        3 => a.shl(n as u64),
        4 => a.shr(n as u64),
        _ => a.add(&Int::from_u128(n as u128)),
    };
    cx.case(&[b"computed", &[op as u8], &a.to_be(), &b.to_be(), &n.to_le_bytes()]);
    let ctx = || format!("result of op {op} (0 add,1 sub,2 rem,3 shl,4 shr,5 add u8) on a={} b={} n={n}", hex(&a.to_be()), hex(&b.to_be()));
    let r = cx.must("arithmetic", ctx, || match op {
        0 => v::big_add(&mut x, &y),
        1 => v::big_sub(&mut x, &y),
        2 => v::big_rem(&mut x, &y),
        3 => v::big_shl(&mut x, n),
        4 => v::big_shr(&mut x, n),
        _ => v::big_add_u8(&mut x, n as u8),
    });
    if r.is_none() {
        return;
    }
    observe(cx, &x, &want, &ctx);
    let Some(z) = big(cx, &want, t.u64()) else { return };
    order(cx, &x, &z, &want, &want, &ctx);
    order(cx, &x, &y, &want, &b, &ctx);
    cx.class("values produced by arithmetic");
}
