//! C23 no dependence on history or threads, C24 no undefined behaviour.
use super::rsa::{n128, pkcs8, smooth_key, spki};
use crate::engine::*;
use crate::oracle::big::Int;
use crate::oracle::der::Node;
use crate::oracle::{aes, hash, oaep, pem, rc};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::{Barrier, Mutex};
use vpcalls as v;
use vpcalls::cryptography::aes::Aes;

pub static C23: Prop = Prop {
    id: "C23",
    rule: "a case is one history (a sequence of operations that repeat, nearly repeat and interleave on live objects, in one process) or one concurrent run (several threads over shared objects), every result compared with the value that independent models assign to the arguments; a run's interleaving is the observed completion order of its operations; distinct by (operations, interleaving)",
    scenarios: &[
        Scenario::sweep("auto-traits", 1, 1, auto_traits),
        Scenario::sweep("threads", 200, 2000, threads),
        Scenario::sweep("cold", 176, 1760, cold),
        Scenario::sweep("history", 400, 4000, history),
        Scenario::random("history-random", 6, history),
        Scenario::random("threads-random", 2, threads),
    ],
    cap: 2 << 30,
};

// ------------------------------------------------------------------ Send and Sync

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Probe<T> {}
struct ProbeSync<T>(PhantomData<T>);
impl<T> No for ProbeSync<T> {}
#[allow(dead_code)]
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
macro_rules! traits {
    ($($t:ty),*) => { vec![$((stringify!($t), Probe::<$t>::SEND, ProbeSync::<$t>::SYNC)),*] };
}
fn trait_table() -> Vec<(&'static str, bool, bool)> {
    traits!(Aes, v::Rc2, v::Rc4, v::Rc5, v::Big, v::Priv, v::Publ, v::Rsa)
}
fn auto_traits(_: u64, _t: &mut Tape, cx: &mut Cx) {
    for (name, send, sync) in trait_table() {
        cx.case(&[name.as_bytes()]);
        if !send {
            cx.viol("type cannot be sent to a thread", name.to_string());
        }
        if !sync {
            cx.viol("type cannot be shared between threads", name.to_string());
        }
        cx.class("types checked for Send and Sync");
    }
}

// ------------------------------------------------------------------ operations with known results

/// One call with its arguments and the answer that the arguments determine.
#[derive(Clone)]
enum Op {
    Aes(Vec<u8>, [u8; 16], bool),
    Rc2(Vec<u8>, u16, [u8; 8], bool),
    Rc5(Vec<u8>, u8, [u8; 8], bool),
    Rc4(Vec<u8>, Vec<u8>),
    Md(u8, Vec<u8>),
    Sha(u16, Vec<u8>),
    Rem(Vec<u8>, Vec<u8>),
    AddSub(Vec<u8>, Vec<u8>),
    Shift(Vec<u8>, u32),
    Rsa(Vec<u8>, u64, Vec<u8>, bool),
    Oaep(Vec<u8>, Vec<u8>, [u8; 32], usize),
    OaepEnc(Vec<u8>, Vec<u8>, usize),
    Pem(String, Vec<u8>),
    Asn1(Vec<u8>, Vec<u8>),
    Pad(usize, Vec<u8>),
    Msg(Vec<u8>, Vec<u8>),
    Keys(u64, u64, u64),
    Chain(u8, Vec<u8>, Vec<u8>, Vec<u8>),
    Refused(u8, Vec<u8>),
    Import(Vec<u8>, Vec<u8>, bool),
    /// an operation made from within a callback of another one
    Nested(u8, Vec<u8>, Vec<u8>, Box<Op>),
}
fn flip(t: &mut Tape, b: &mut Vec<u8>) {
    if !b.is_empty() {
        let k = match t.below(4) {
            0 => 0,
            1 => b.len() - 1,
            _ => t.below(b.len() as u64) as usize,
        };
        let j = t.below(b.len() as u64) as usize;
        let bit = 1u8 << t.below(8);
        match t.below(if b.len() < 2 || k == j { 1 } else { 8 }) {
            // the same sum, exclusive-or or multiset of bytes as before
            5 => b.swap(k, j),
            6 => {
                b[k] ^= bit;
                b[j] ^= bit;
            }
            7 => {
                b[k] = b[k].wrapping_add(1);
                b[j] = b[j].wrapping_sub(1);
            }
            // only the length or the middle stays
            4 => b[k..].fill(bit),
            _ => b[k] ^= bit,
        }
    }
}
/// mostly short, now and then long
fn data(t: &mut Tape, short: usize) -> Vec<u8> {
    if !cfg!(miri) && t.chance(1, 24) {
        let n = *t.pick(&[255usize, 256, 257, 511, 512, 1000, 1024, 2049, 4096, 5000]);
        return t.bytes(n);
    }
    t.blob(0, short)
}
/// A byte string at an address that earlier calls on this thread have used for other bytes, as when
/// a program reuses its buffers: nothing may be remembered under the address alone.
struct At(Vec<u8>);
thread_local! { static PLACES: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) }; }
fn at(b: &[u8]) -> At {
    let mut v = PLACES.with_borrow_mut(|p| p.pop()).unwrap_or_else(|| Vec::with_capacity(if cfg!(miri) { 512 } else { 8192 }));
    v.clear();
    v.extend_from_slice(b);
    At(v)
}
impl std::ops::Deref for At {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl Drop for At {
    fn drop(&mut self) {
        let v = std::mem::take(&mut self.0);
        let _ = PLACES.try_with(|p| p.borrow_mut().push(v));
    }
}

impl Op {
    fn nest(t: &mut Tape) -> Op {
        let kind = t.below(v::NESTINGS as u64) as u8;
        let (k, m) = (t.blob(1, 20), t.blob(1, 40));
        // often the same kind of operation inside
        let inner = if t.chance(1, 2) {
            match kind {
                0..=3 => match t.below(3) {
                    0 => Op::Chain(2, t.bytes(16), t.bytes(16), t.blob(0, 30)),
                    1 => Op::Msg(t.bytes(16), t.blob(0, 30)),
                    _ => Op::Refused(13, vec![]),
                },
                4 | 5 => Op::Rc4(t.blob(1, 20), t.blob(0, 30)),
                6..=8 => Op::Md([2, 4, 5][kind as usize - 6], t.blob(0, 80)),
                9 => {
                    let mut n = t.blob(1, 4);
                    n[0] |= 2;
                    Op::Rsa(n, t.below(64), t.blob(0, 3), t.chance(1, 2))
                }
                10 => Op::Pem("P".into(), t.blob(0, 60)),
                _ => Op::AddSub(t.blob(0, 30), t.blob(0, 30)),
            }
        } else {
            Op::gen_flat(t)
        };
        Op::Nested(kind, k, m, Box::new(inner))
    }
    fn gen_flat(t: &mut Tape) -> Op {
        loop {
            match Op::gen_one(t) {
                Op::Nested(..) => continue,
                o => return o,
            }
        }
    }
    fn gen_one(t: &mut Tape) -> Op {
        let k = t.below(22);
        Op::gen_kind(t, k)
    }
    fn gen_kind(t: &mut Tape, kind: u64) -> Op {
        match kind {
            20 | 21 if !cfg!(miri) => Op::nest(t),
            0 => {
                let n = *t.pick(&[16usize, 24, 32]);
                Op::Aes(t.bytes(n), t.arr(), t.chance(1, 2))
            }
            1 => Op::Rc2(t.blob(1, 40), t.range(1, 1024) as u16, t.arr(), t.chance(1, 2)),
            2 => Op::Rc5(t.blob(0, 40), t.range(0, 20) as u8, t.arr(), t.chance(1, 2)),
            3 => Op::Rc4(t.blob(1, 40), data(t, 60)),
            4 => Op::Md(*t.pick(&[2, 4, 5]), data(t, 150)),
            5 | 6 => Op::Sha(*t.pick(&[1, 224, 256, 384, 512]), data(t, 260)),
            7 => {
                let (a, b) = if cfg!(miri) { (6, 3) } else { (40, 20) };
                let mut d = t.blob(1, b);
                d[0] |= 1;
                Op::Rem(t.blob(0, a), d)
            }
            8 => Op::AddSub(data(t, 40), t.blob(0, 40)),
            9 => Op::Shift(t.blob(0, 30), t.below(300) as u32),
            10 if cfg!(miri) => Op::Rsa(vec![t.byte() | 2, t.byte()], t.below(16), t.blob(0, 1), t.chance(1, 2)),
            12 | 16 | 19 if cfg!(miri) => Op::Md(*t.pick(&[2, 4, 5]), t.blob(0, 70)),
            10 => {
                let mut n = t.blob(1, 20);
                n[0] |= 2;
                let x = t.below(1 << 16);
                let x = if n.len() > 8 { x & 63 } else { x };
                Op::Rsa(n, x, t.blob(0, 12), t.chance(1, 2))
            }
            11 => {
                let (l, m) = (t.blob(0, 8), t.blob(0, 30));
                let k = m.len() + 66 + t.below(20) as usize;
                Op::Oaep(l, m, t.arr(), k)
            }
            12 => {
                let (l, m) = (t.blob(0, 8), t.blob(0, 30));
                let k = m.len() + 66 + t.below(20) as usize;
                Op::OaepEnc(l, m, k)
            }
            13 => Op::Pem(t.pick(&["A", "PUBLIC KEY", "X Y"]).to_string(), data(t, 100)),
            14 => {
                let mut a = t.blob(1, 20);
                a[0] &= 0x7f;
                if a[0] == 0 && a.len() > 1 {
                    a[0] = 1;
                }
                Op::Asn1(a, data(t, 20))
            }
            15 => {
                let n = *t.pick(&[1usize, 2, 8, 16, 17, 64, 255]);
                Op::Pad(n, t.blob(0, n - 1))
            }
            16 => Op::Chain(t.below(3) as u8, t.bytes(16), t.bytes(16), data(t, 70)),
            17 => Op::Refused(t.below(14 + v::NESTINGS as u64) as u8, t.blob(0, 40)),
            18 => Op::Import(t.blob(1, 20), t.blob(1, 20), t.chance(1, 2)),
            _ => match t.below(3) {
                0 => {
                    let (p, q) = *t.pick(&[(61u64, 53), (1009, 1013), (65537, 65539), (3, 5), (4294967291, 4294967279)]);
                    Op::Keys(p, q, *t.pick(&[17, 7, 65537, 11, 13]))
                }
                _ => Op::Msg(t.bytes(16), data(t, 70)),
            },
        }
    }
    /// the same operation with one argument changed a little
    fn near(&self, t: &mut Tape) -> Op {
        let mut o = self.clone();
        let w = t.below(3);
        match &mut o {
            Op::Aes(k, b, e) => match w {
                0 => flip(t, k),
                1 => b[t.below(16) as usize] ^= 1,
                _ => *e = !*e,
            },
            Op::Rc2(k, bits, b, e) => match t.below(4) {
                0 => flip(t, k),
                1 => b[t.below(8) as usize] ^= 1,
                2 => *bits = (*bits % 1024) + 1,
                _ => *e = !*e,
            },
            Op::Rc5(k, r, b, e) => match t.below(5) {
                0 => flip(t, k),
                1 => b[t.below(8) as usize] ^= 1,
                2 => *r = (*r + 1) % 21,
                3 => k.push(0),
                _ => *e = !*e,
            },
            Op::Rc4(k, d) => match w {
                0 => flip(t, k),
                1 => flip(t, d),
                _ => d.push(0),
            },
            Op::Md(a, m) => match w {
                0 => *a = *t.pick(&[2, 4, 5]),
                1 => flip(t, m),
                _ => m.push(0),
            },
            Op::Sha(a, m) => match w {
                0 => *a = *t.pick(&[1, 224, 256, 384, 512]),
                1 => flip(t, m),
                _ => {
                    m.pop();
                }
            },
            Op::Rem(a, d) => {
                if w == 0 {
                    flip(t, d);
                    d[0] |= 1;
                } else {
                    flip(t, a)
                }
            }
            Op::AddSub(a, b) => {
                if w == 0 {
                    flip(t, a)
                } else {
                    flip(t, b)
                }
            }
            Op::Shift(a, n) => {
                if w == 0 {
                    flip(t, a)
                } else {
                    *n = (*n + 1) % 300
                }
            }
            Op::Rsa(n, x, m, p) => match t.below(4) {
                0 => {
                    flip(t, n);
                    n[0] |= 2;
                }
                1 => *x += 1,
                2 => flip(t, m),
                _ => *p = !*p,
            },
            Op::Oaep(l, m, s, k) => match t.below(4) {
                0 => flip(t, l),
                1 => flip(t, m),
                2 => s[t.below(32) as usize] ^= 1,
                _ => *k += 1,
            },
            Op::OaepEnc(l, m, k) => match w {
                0 => flip(t, l),
                1 => flip(t, m),
                _ => *k += 1,
            },
            Op::Pem(l, d) => {
                if w == 0 {
                    l.push('Z')
                } else {
                    flip(t, d)
                }
            }
            Op::Asn1(a, b) => {
                if w == 0 {
                    flip(t, a);
                    a[0] = (a[0] & 0x7f).max(1);
                } else {
                    flip(t, b)
                }
            }
            Op::Chain(c, k, iv, m) => match t.below(5) {
                0 => *c = (*c + 1) % 3,
                1 => flip(t, k),
                2 => flip(t, iv),
                3 => flip(t, m),
                _ => m.push(1),
            },
            Op::Refused(k, b) => match w {
                0 => *k = t.below(14 + v::NESTINGS as u64) as u8,
                _ => flip(t, b),
            },
            Op::Import(n, x, p) => match w {
                0 => flip(t, n),
                1 => flip(t, x),
                _ => *p = !*p,
            },
            Op::Nested(k, a, m, i) => match t.below(4) {
                0 => *k = t.below(v::NESTINGS as u64) as u8,
                1 => flip(t, a),
                2 => flip(t, m),
                _ => **i = i.near(t),
            },
            Op::Pad(_, d) => flip(t, d),
            Op::Msg(k, m) => match w {
                0 => flip(t, k),
                1 => flip(t, m),
                _ => m.push(1),
            },
            Op::Keys(_, _, e) => *e = *t.pick(&[17, 7, 65537, 11, 13]),
        }
        o
    }
    fn name(&self) -> &'static str {
        match self {
            Op::Aes(..) => "AES",
            Op::Rc2(..) => "RC2",
            Op::Rc5(..) => "RC5",
            Op::Rc4(..) => "RC4",
            Op::Md(..) => "MD",
            Op::Sha(..) => "SHA",
            Op::Rem(..) => "remainder",
            Op::AddSub(..) => "add and subtract",
            Op::Shift(..) => "shift",
            Op::Rsa(..) => "RSA operation",
            Op::Oaep(..) => "OAEP decode",
            Op::OaepEnc(..) => "OAEP encode",
            Op::Pem(..) => "PEM",
            Op::Asn1(..) => "ASN.1",
            Op::Pad(..) => "padding",
            Op::Msg(..) => "block message",
            Op::Keys(..) => "key creation",
            Op::Chain(..) => "CBC message",
            Op::Refused(..) => "refused call",
            Op::Import(..) => "key import",
            Op::Nested(..) => "operation around another one",
        }
    }
    fn want(&self) -> Vec<u8> {
        // the models derive their tables, which is too slow to interpret: there the library's
        // result before any thread runs is the reference
        if cfg!(miri) {
            return self.run(&mut vec![]);
        }
        match self {
            Op::Aes(k, b, e) => {
                let r = aes::Ref::new(k);
                if *e { r.enc(*b).to_vec() } else { r.dec(*b).to_vec() }
            }
            Op::Rc2(k, bits, b, e) => {
                let r = rc::Rc2::new(k, *bits as usize);
                if *e { r.enc(*b).to_vec() } else { r.dec(*b).to_vec() }
            }
            Op::Rc5(k, n, b, e) => {
                let r = rc::Rc5::new(k, *n as usize);
                if *e { r.enc(*b).to_vec() } else { r.dec(*b).to_vec() }
            }
            Op::Rc4(k, d) => rc::Rc4::stream(k, d.len()).iter().zip(d).map(|(a, b)| a ^ b).collect(),
            Op::Md(a, m) => hash::md(*a, m),
            Op::Sha(a, m) => hash::sha(*a, m),
            Op::Rem(a, d) => Int::from_be(a).rem(&Int::from_be(d)).to_be(),
            Op::AddSub(a, _) => Int::from_be(a).to_be(),
            Op::Shift(a, n) => {
                let x = Int::from_be(a);
                [x.shl(*n as u64).to_be(), vec![0xee], x.shr(*n as u64).to_be()].concat()
            }
            Op::Rsa(n, x, m, _) => Int::from_be(m).modpow(&n128(*x as u128), &Int::from_be(n)).to_be(),
            Op::Oaep(_, m, _, _) | Op::OaepEnc(_, m, _) => m.clone(),
            Op::Pem(l, d) => [pem::format(l, d).into_bytes(), d.clone()].concat(),
            Op::Asn1(a, b) => [&a[..], &[0xee], b].concat(),
            Op::Pad(n, d) => {
                let mut p = d.clone();
                p.resize(*n, (*n - d.len()) as u8);
                p.push(d.len() as u8);
                p
            }
            Op::Msg(k, m) => {
                let r = aes::Ref::new(k);
                let mut p = m.clone();
                let z = 16 - m.len() % 16;
                p.resize(m.len() + z, z as u8);
                let mut c: Vec<u8> = p.chunks(16).flat_map(|b| r.enc(b.try_into().unwrap())).collect();
                c.extend_from_slice(m);
                c
            }
            Op::Keys(p, q, e) => {
                // m^e for the public key, m for the pair
                let n = n128(*p as u128 * *q as u128);
                let m = n128(2);
                let phi = n128((*p - 1) as u128).mul(&n128((*q - 1) as u128));
                if phi.gcd(&n128(*e as u128)) != n128(1) {
                    return b"refused".to_vec();
                }
                [m.modpow(&n128(*e as u128), &n).to_be(), vec![0xee], m.to_be()].concat()
            }
            Op::Chain(c, k, iv, m) => {
                let n = if *c == 0 { 16 } else { 8 };
                let mut p = m.clone();
                let z = n - m.len() % n;
                p.resize(m.len() + z, z as u8);
                let mut last = iv[..n].to_vec();
                let mut out = vec![];
                let (a, r2, r5) = (aes::Ref::new(k), rc::Rc2::new(k, 128), rc::Rc5::new(k, 12));
                for b in p.chunks(n) {
                    let x: Vec<u8> = b.iter().zip(&last).map(|(a, b)| a ^ b).collect();
                    last = match c {
                        0 => a.enc(x.try_into().unwrap()).to_vec(),
                        1 => r2.enc(x.try_into().unwrap()).to_vec(),
                        _ => r5.enc(x.try_into().unwrap()).to_vec(),
                    };
                    out.extend_from_slice(&last);
                }
                out.extend_from_slice(m);
                out
            }
            Op::Refused(..) => b"refused".to_vec(),
            Op::Import(n, x, _) => [n.as_slice(), &[0xee], x].concat(),
            Op::Nested(kind, k, m, _) => match kind {
                0 | 2 => {
                    let r = rc::Rc5::new(k, 12);
                    let z = 8 - m.len() % 8;
                    let mut p = m.clone();
                    p.resize(m.len() + z, z as u8);
                    p.chunks(8).flat_map(|b| r.enc(b.try_into().unwrap())).collect()
                }
                1 | 3 => m.clone(),
                4 | 5 => rc::Rc4::stream(k, m.len()).iter().zip(m).map(|(a, b)| a ^ b).collect(),
                6 => hash::md(2, m),
                7 => hash::md(4, m),
                8 => hash::md(5, m),
                9 => {
                    let m = &m[..m.len().min(3)];
                    [&vec![0; 4 - m.len()], m].concat()
                }
                10 => pem::format("N", m).into_bytes(),
                _ => {
                    let mut le = m.clone();
                    le.reverse();
                    [Int::from_be(k).add(&Int::from_be(&le)).to_be(), vec![0x77; 20]].concat()
                }
            },
        }
    }
    /// runs it; `buf` is a buffer whose address is reused for keys from call to call
    fn run(&self, buf: &mut Vec<u8>) -> Vec<u8> {
        let mut place = |b: &[u8]| {
            buf.clear();
            buf.extend_from_slice(b);
        };
        match self {
            Op::Aes(k, b, e) => {
                place(k);
                let c = v::aes_bytes(buf);
                if *e { v::aes_enc(&c, *b).to_vec() } else { v::aes_dec(&c, *b).to_vec() }
            }
            Op::Rc2(k, bits, b, e) => {
                place(k);
                let c = v::rc2_new(buf, *bits);
                if *e { v::rc2_enc(&c, *b).to_vec() } else { v::rc2_dec(&c, *b).to_vec() }
            }
            Op::Rc5(k, n, b, e) => {
                place(k);
                let c = v::rc5_new(buf, *n);
                if *e { v::rc5_enc(&c, *b).to_vec() } else { v::rc5_dec(&c, *b).to_vec() }
            }
            Op::Rc4(k, d) => {
                place(k);
                v::rc4_encrypt(buf, d)
            }
            Op::Md(a, m) => {
                place(m);
                v::md(*a, buf, 0).to_vec()
            }
            Op::Sha(a, m) => {
                place(m);
                v::sha(*a, buf)
            }
            Op::Rem(a, d) => {
                let mut x = v::big_be(&at(a));
                v::big_rem(&mut x, &v::big_be(&at(d)));
                v::big_to_be(&x)
            }
            Op::AddSub(a, b) => {
                let mut x = v::big_be(&at(a));
                let y = v::big_be(&at(b));
                v::big_add(&mut x, &y);
                v::big_sub(&mut x, &y);
                v::big_to_be(&x)
            }
            Op::Shift(a, n) => {
                let x = v::big_be(&at(a));
                let (mut l, mut r) = (x.clone(), x);
                v::big_shl(&mut l, *n);
                v::big_shr(&mut r, *n);
                [v::big_to_be(&l), vec![0xee], v::big_to_be(&r)].concat()
            }
            Op::Rsa(n, x, m, private) => {
                let (n, x) = (Int::from_be(n), n128(*x as u128));
                let k = if *private {
                    let o = std::array::from_fn(|_| n128(3));
                    v::rsa_priv(v::import_priv("PRIVATE KEY", &at(&pkcs8(&n, &x, &o).enc())).expect("valid key"))
                } else {
                    v::rsa_pub(v::import_pub("PUBLIC KEY", &at(&spki(&n, &x).enc())).expect("valid key"))
                };
                let m = at(m);
                if *private { v::rsa_dec(&k, &m) } else { v::rsa_enc(&k, &m) }
            }
            Op::Oaep(l, m, s, k) => {
                // (the model's SHA-256 constants take minutes to derive under Miri)
                let l = at(l);
                let em = at(&if cfg!(miri) { v::oaep_encode(&l, m, *k) } else { oaep::encode(&l, m, *k, s) });
                v::oaep_decode(&l, &em, *k).expect("valid encoding")
            }
            Op::OaepEnc(l, m, k) => {
                let (l, m) = (at(l), at(m));
                let em = v::oaep_encode(&l, &m, *k);
                oaep::decode(&l, &em, *k).expect("library produced a valid encoding")
            }
            Op::Pem(l, d) => {
                let s = v::pem_format(l, d);
                let text = at(s.as_bytes());
                let (l2, d2) = v::pem_parse(std::str::from_utf8(&text).expect("text")).expect("own text");
                assert_eq!(&l2, l);
                [s.into_bytes(), d2].concat()
            }
            Op::Asn1(a, b) => {
                let e = at(&Node::Seq(vec![Node::Int(a.clone()), Node::Oct(b.clone())]).enc());
                match super::codec::conv(&v::asn1_parse(&e).expect("valid DER")) {
                    Node::Seq(s) => match &s[..] {
                        [Node::Int(a), Node::Oct(b)] => [&a[..], &[0xee], b].concat(),
                        _ => vec![],
                    },
                    _ => vec![],
                }
            }
            Op::Pad(n, d) => {
                let mut p = v::pkcs_pad(*n, &at(d));
                let l = v::pkcs_unpad(*n, &at(&p));
                p.push(l as u8);
                p
            }
            Op::Msg(k, m) => {
                place(k);
                let t = v::Trace::default();
                v::CipherSpec::Aes(buf.clone()).drive(v::Dir::Enc, v::MODES, &[], &at(m), &t);
                let mut c = t.out.borrow().clone();
                let t2 = v::Trace::default();
                v::CipherSpec::Aes(buf.clone()).drive(v::Dir::Dec, v::MODES, &[], &at(&c), &t2);
                c.extend_from_slice(&t2.out.borrow());
                c
            }
            Op::Keys(p, q, e) => {
                let r = std::panic::catch_unwind(|| v::rsa_create(&p.to_be_bytes(), &q.to_be_bytes(), &e.to_be_bytes()));
                let Ok((a, b)) = r else { return b"refused".to_vec() };
                let (a, b) = (v::rsa_priv(a), v::rsa_pub(b));
                let c = v::rsa_enc(&b, &[2]);
                let m = v::rsa_dec(&a, &c);
                [c, vec![0xee], m].concat()
            }
            Op::Chain(c, k, iv, m) => {
                place(k);
                let (s, n) = match c {
                    0 => (v::CipherSpec::Aes(buf.clone()), 16),
                    1 => (v::CipherSpec::Rc2(buf.clone(), 128), 8),
                    _ => (v::CipherSpec::Rc5(buf.clone(), 12), 8),
                };
                let t = v::Trace::default();
                s.drive(v::Dir::Enc, 1, &iv[..n], &at(m), &t);
                let mut out = t.out.borrow().clone();
                let t2 = v::Trace::default();
                s.drive(v::Dir::Dec, 1, &iv[..n], &at(&out), &t2);
                out.extend_from_slice(&t2.out.borrow());
                out
            }
            Op::Refused(k, b) => {
                let r = std::panic::catch_unwind(|| refused(*k, b));
                match r {
                    Ok(Ok(())) => b"accepted".to_vec(),
                    _ => b"refused".to_vec(),
                }
            }
            Op::Nested(kind, k, m, inner) => {
                let want = inner.want();
                let count = std::cell::Cell::new(0u32);
                let f = || {
                    let c = count.get();
                    count.set(c + 1);
                    if matches!(c, 0 | 2 | 9) {
                        let g = inner.run(&mut vec![]);
                        assert!(g == want, "inner {}: got {} want {}", inner.show(), hex(&g), hex(&want));
                    }
                };
                v::nested(*kind, k, m, &f)
            }
            Op::Import(n, x, private) => {
                // the keys of (n, x) must be equal to each other and differ from those of other numbers
                let (i, j) = (Int::from_be(n).add(&n128(2)), Int::from_be(x));
                let o: [Int; 6] = std::array::from_fn(|_| n128(3));
                let (i2, j2) = (i.add(&n128(1)), j.add(&n128(1)));
                let same = if *private {
                    let f = |a: &Int, b: &Int| v::import_priv("PRIVATE KEY", &at(&pkcs8(a, b, &o).enc())).expect("valid key");
                    v::priv_eq(&f(&i, &j), &f(&i, &j)) && !v::priv_eq(&f(&i, &j), &f(&i2, &j)) && !v::priv_eq(&f(&i, &j), &f(&i, &j2))
                } else {
                    let f = |a: &Int, b: &Int| v::import_pub("PUBLIC KEY", &at(&spki(a, b).enc())).expect("valid key");
                    v::pub_eq(&f(&i, &j), &f(&i, &j)) && !v::pub_eq(&f(&i, &j), &f(&i2, &j)) && !v::pub_eq(&f(&i, &j), &f(&i, &j2))
                };
                if same { [n.as_slice(), &[0xee], x].concat() } else { b"key comparison".to_vec() }
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Op::Aes(k, b, e) => [&k[..], b, &[*e as u8]].concat(),
            Op::Rc2(k, n, b, e) => [&k[..], &n.to_le_bytes(), b, &[*e as u8]].concat(),
            Op::Rc5(k, n, b, e) => [&k[..], &[*n], b, &[*e as u8]].concat(),
            Op::Md(a, m) => [&[*a][..], m].concat(),
            Op::Sha(a, m) => [&a.to_le_bytes()[..], m].concat(),
            Op::Rc4(a, b) | Op::Rem(a, b) | Op::AddSub(a, b) | Op::Asn1(a, b) | Op::Msg(a, b) => [&a[..], &[0xee], b].concat(),
            Op::Shift(a, n) => [&a[..], &n.to_le_bytes()].concat(),
            Op::Rsa(n, x, m, p) => [&n[..], &x.to_le_bytes(), m, &[*p as u8]].concat(),
            Op::Chain(c, k, iv, m) => [&[*c][..], k, iv, m].concat(),
            Op::Refused(k, b) => [&[*k][..], b].concat(),
            Op::Import(n, x, p) => [&n[..], &[0xee], x, &[*p as u8]].concat(),
            Op::Nested(k, a, m, i) => [&[*k][..], a, &[0xee], m, &[0xee], &i.bytes()].concat(),
            Op::Oaep(l, m, s, k) => [&l[..], &[0xee], m, s, &k.to_le_bytes()].concat(),
            Op::OaepEnc(l, m, k) => [&l[..], &[0xee], m, &k.to_le_bytes()].concat(),
            Op::Pem(l, d) => [l.as_bytes(), d].concat(),
            Op::Pad(n, d) => [&n.to_le_bytes()[..], d].concat(),
            Op::Keys(p, q, e) => [p.to_le_bytes(), q.to_le_bytes(), e.to_le_bytes()].concat(),
        }
    }
    fn show(&self) -> String {
        format!("{} [{}]", self.name(), hex(&self.bytes()))
    }
}

/// calls that must be refused (by a panic or an error value) whatever happened before
fn refused(kind: u8, b: &[u8]) -> Result<(), String> {
    match kind {
        0 => {
            v::pkcs_unpad(8, &[0; 8]);
        }
        1 => {
            v::bit_unpad(8, &[0; 8]);
        }
        2 => {
            v::pkcs_pad(4, &[1; 4]);
        }
        3 => {
            v::bit_pad(4, &[1; 5]);
        }
        4 => {
            let mut a = v::big_be(b);
            let mut more = b.to_vec();
            more.insert(0, 1);
            v::big_sub(&mut a, &v::big_be(&more));
        }
        5 => {
            v::rsa_create(&61u64.to_be_bytes(), &53u64.to_be_bytes(), &[2]);
        }
        6 => {
            // two 120-bit primes' worth of modulus
            v::rsa_create(&[0xff; 15], &[0xff; 15], &[1, 0, 1]);
        }
        7 => {
            v::pem_parse("-----BEGIN A-----\nAAAA\n-----END B-----")?;
        }
        8 => {
            // a sequence that announces more than there is
            let mut d = vec![0x30, b.len() as u8 + 1];
            d.extend_from_slice(b);
            v::asn1_parse(&d)?;
        }
        9 => {
            v::import_pub("PRIVATE KEY", &spki(&n128(77), &n128(7)).enc())?;
        }
        10 => {
            v::hash_from_hex(32, &vec![b'g'; 64])?;
        }
        11 => {
            // the first byte of an encoded message is always zero
            v::oaep_decode(b, &[1; 80], 80)?;
        }
        12 => {
            v::import_priv("PRIVATE KEY", &spki(&n128(77), &n128(7)).enc())?;
        }
        // a callback of the caller panics in the middle
        k if k >= 14 => {
            v::nested(k - 14, b"key", &[9; 20], &|| panic!("from a callback"));
        }
        _ => {
            // 17 bytes are no whole number of blocks
            let t = v::Trace::default();
            v::CipherSpec::Aes(vec![7; 16]).drive(v::Dir::Dec, v::MODES, &[], &[3; 17], &t);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ live objects

enum Live {
    Aes(Aes, aes::Ref),
    Rc2(v::Rc2, rc::Rc2),
    Rc5(v::Rc5, rc::Rc5),
    Rc4(v::Rc4, rc::Rc4),
    Stream(v::Stream, rc::Rc4),
    Rsa(v::Rsa, Int, Int),
    Big(v::Big, Int),
}
impl Live {
    fn new(t: &mut Tape, like: &[u8]) -> Live {
        // keys are derived from one short stem, so that live objects have nearly equal keys
        let mut k = like.to_vec();
        flip(t, &mut k);
        match t.below(7) {
            0 => {
                let n = *t.pick(&[16usize, 24, 32]);
                Live::Aes(v::aes_bytes(&k[..n]), aes::Ref::new(&k[..n]))
            }
            1 => {
                let (n, b) = (t.range(1, 32), t.range(1, 1024));
                Live::Rc2(v::rc2_new(&k[..n], b as u16), rc::Rc2::new(&k[..n], b))
            }
            2 => {
                let (n, r) = (t.range(0, 32), t.range(0, 20));
                Live::Rc5(v::rc5_new(&k[..n], r as u8), rc::Rc5::new(&k[..n], r))
            }
            3 => {
                let n = t.range(1, 32);
                Live::Rc4(v::Rc4::new(&k[..n]), rc::Rc4::new(&k[..n]))
            }
            4 => {
                let n = t.range(1, 32);
                Live::Stream(v::stream_new(v::Keys::Rc4(v::Rc4::new(&k[..n]))), rc::Rc4::new(&k[..n]))
            }
            5 => {
                let n = Int::from_be(&k[..if cfg!(miri) { 6 } else { *t.pick(&[6usize, 9, 17]) }]).add(&n128(2));
                let x = Int::from_be(&k[17..18]);
                Live::Rsa(v::rsa_pub(v::import_pub("PUBLIC KEY", &at(&spki(&n, &x).enc())).expect("valid key")), n, x)
            }
            _ => {
                let n = t.range(0, 32);
                Live::Big(v::big_be(&k[..n]), Int::from_be(&k[..n]))
            }
        }
    }
    fn step(&mut self, t: &mut Tape, cx: &mut Cx) {
        let sig = "a live object's result depends on other calls";
        match self {
            Live::Aes(c, r) => {
                let b: [u8; 16] = t.arr();
                cx.eq(sig, &v::aes_enc(c, b), &r.enc(b), || format!("AES encrypt {}", hex(&b)));
                cx.eq(sig, &v::aes_dec(c, b), &r.dec(b), || format!("AES decrypt {}", hex(&b)));
            }
            Live::Rc2(c, r) => {
                let b: [u8; 8] = t.arr();
                cx.eq(sig, &v::rc2_enc(c, b), &r.enc(b), || format!("RC2 encrypt {}", hex(&b)));
                cx.eq(sig, &v::rc2_dec(c, b), &r.dec(b), || format!("RC2 decrypt {}", hex(&b)));
            }
            Live::Rc5(c, r) => {
                let b: [u8; 8] = t.arr();
                cx.eq(sig, &v::rc5_enc(c, b), &r.enc(b), || format!("RC5 encrypt {}", hex(&b)));
                cx.eq(sig, &v::rc5_dec(c, b), &r.dec(b), || format!("RC5 decrypt {}", hex(&b)));
            }
            Live::Rc4(c, r) => {
                let n = t.range(0, 300);
                let g: Vec<u8> = c.by_ref().take(n).collect();
                let w: Vec<u8> = (0..n).map(|_| r.byte()).collect();
                cx.eq(sig, &g, &w, || format!("RC4 next {n} bytes"));
            }
            Live::Stream(c, r) => {
                let d = t.blob(0, 60);
                let take = t.below(d.len() as u64 + 1) as usize;
                let mut g = vec![];
                v::stream_piece(c, &d, take, t.below(v::STREAM_STYLES as u64) as u8, &mut g);
                let w: Vec<u8> = d[..take].iter().map(|b| b ^ r.byte()).collect();
                cx.eq(sig, &g, &w, || format!("stream piece of {take} bytes"));
            }
            Live::Rsa(k, n, x) => {
                let m = t.blob(0, 8);
                let w = Int::from_be(&m).modpow(x, n).to_be();
                cx.eq(sig, &v::rsa_enc(k, &m), &w, || format!("RSA m={} n={} x={}", hex(&m), hex(&n.to_be()), hex(&x.to_be())));
            }
            Live::Big(b, i) => {
                let a = t.blob(0, 20);
                let (x, y) = (v::big_be(&a), Int::from_be(&a));
                let mut other = b.clone();
                v::big_add(b, &x);
                *i = i.add(&y);
                // the clone must not share storage with the original
                v::big_shl(&mut other, 3);
                if t.chance(1, 3) {
                    v::big_shr(b, 11);
                    *i = i.shr(11);
                }
                cx.eq(sig, &v::big_to_be(b), &i.to_be(), || format!("big integer after adding {}", hex(&a)));
            }
        }
    }
}

fn history(_: u64, t: &mut Tape, cx: &mut Cx) {
    let stem: Vec<u8> = t.bytes(32);
    let mut live: Vec<Live> = vec![];
    let mut past: Vec<Op> = vec![];
    let mut buf = Vec::with_capacity(512);
    let mut log: Vec<u64> = vec![];
    let steps = t.range(8, 40);
    for _ in 0..steps {
        match t.below(6) {
            0 if live.len() < 12 => match cx.call(|| ()) {
                _ => {
                    let l = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Live::new(t, &stem)));
                    match l {
                        Ok(l) => live.push(l),
                        Err(_) => {
                            let e = last_panic();
                            cx.viol("creating an object failed", format!("panicked: {e}"));
                        }
                    }
                    log.push(1);
                }
            },
            1 | 2 if !live.is_empty() => {
                let k = t.below(live.len() as u64) as usize;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| live[k].step(t, cx)));
                if r.is_err() {
                    let e = last_panic();
                    cx.viol("using a live object failed", format!("panicked: {e}"));
                }
                cx.calls += 1;
                log.push(2 + k as u64);
                if t.chance(1, 12) {
                    live.swap_remove(k);
                }
            }
            _ => {
                let op = match t.below(5) {
                    0 if !past.is_empty() => past[t.below(past.len() as u64) as usize].clone(),
                    1 | 2 | 3 if !past.is_empty() => {
                        let recent = past.len().saturating_sub(4);
                        let k = if t.chance(1, 2) { recent + t.below((past.len() - recent) as u64) as usize } else { t.below(past.len() as u64) as usize };
                        past[k].near(t)
                    }
                    _ => Op::gen_one(t),
                };
                run_op(cx, &op, &mut buf, "depends on earlier calls");
                log.push(hash64(&[&op.bytes()]));
                past.push(op);
            }
        }
    }
    let flat: Vec<u8> = log.iter().flat_map(|x| x.to_le_bytes()).collect();
    cx.case(&[b"history", &flat]);
    cx.class_n("history steps", log.len() as u64);
    cx.sample(53, || format!("history of {} steps: {}", log.len(), past.iter().take(4).map(|o| o.name()).collect::<Vec<_>>().join(", ")));
}
fn run_op(cx: &mut Cx, op: &Op, buf: &mut Vec<u8>, how: &str) {
    let want = op.want();
    match cx.call(|| op.run(buf)) {
        Err(e) => cx.viol(&format!("{} {how}: panic", op.name()), format!("{}: panicked: {e}", op.show())),
        Ok(g) => {
            cx.eq(&format!("{} {how}", op.name()), &g, &want, || op.show());
        }
    }
    cx.class(op.name());
}

// ------------------------------------------------------------------ threads

/// Lets the harness share values even if the library made them unshareable (which auto_traits
/// reports); in that case they are not shared.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

type Fail = (String, String);
static SEQ: AtomicU64 = AtomicU64::new(0);

/// Fresh processes in which the first calls of several threads begin at the same moment.
fn cold(i: u64, t: &mut Tape, cx: &mut Cx) {
    let seed = t.u64();
    let _ = (&cx, i, seed);
    #[cfg(not(miri))]
    {
        let exe = std::env::current_exe().expect("exe");
        let mut orders = std::collections::BTreeSet::new();
        for k in 0..16 {
            crate::engine::WAITING.store(true, Relaxed);
            let o = std::process::Command::new(&exe).args(["cold-probe", &seed.to_string(), &i.to_string(), &k.to_string()]).output();
            crate::engine::WAITING.store(false, Relaxed);
            let Ok(o) = o else { continue };
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            cx.class("fresh processes");
            for l in out.lines() {
                if let Some(r) = l.strip_prefix("ORDER ") {
                    orders.insert(r.to_string());
                    cx.case(&[b"cold", &seed.to_le_bytes(), &i.to_le_bytes(), r.as_bytes()]);
                    cx.calls += r.len() as u64;
                }
                if let Some(r) = l.strip_prefix("BAD ") {
                    cx.viol("the first calls of a process, made at the same time, give a wrong result", format!("seed {seed} item {i}: {r}"));
                }
            }
            if !o.status.success() || !out.contains("DONE") {
                let e = String::from_utf8_lossy(&o.stderr).into_owned();
                cx.viol("a process whose first calls are made at the same time died", format!("seed {seed} item {i}: {:?} {}", o.status, e.chars().take(3000).collect::<String>()));
            }
            if !cx.viols.is_empty() {
                return;
            }
        }
        cx.class_n("first-call completion orders", orders.len() as u64);
    }
}
/// the body of such a process
pub fn cold_probe(seed: u64, i: u64, k: u64) {
    crate::engine::start_watchdog();
    let mut tape = Tape::new(vec![], seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15), &[]);
    let t = &mut tape;
    let nt = 2 + (k % 5) as usize;
    // one kind of operation at a time, so that everything before it is untouched
    let proto = Op::gen_kind(t, i % 22);
    let mut work: Vec<(Op, Vec<u8>)> = vec![];
    for _ in 0..nt {
        let op = if t.chance(1, 3) { proto.clone() } else { proto.near(t) };
        let w = op.want();
        work.push((op, w));
    }
    let ready = AtomicUsize::new(0);
    let order: Mutex<Vec<u8>> = Mutex::new(vec![]);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let work = Share(work);
    let work = &work;
    std::thread::scope(|s| {
        for id in 0..nt {
            let (ready, order, bad) = (&ready, &order, &bad);
            s.spawn(move || {
                let (op, want) = &work.0[id];
                let mut buf = Vec::with_capacity(300);
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < nt {
                    std::hint::spin_loop();
                }
                // staggered by a little, differently from process to process
                for _ in 0..k * 40 * id as u64 {
                    std::hint::spin_loop();
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.run(&mut buf)));
                order.lock().unwrap().push(id as u8);
                match r {
                    Ok(g) if g == *want => {}
                    Ok(g) => bad.lock().unwrap().push(format!("{}: got {} want {}", op.show(), hex(&g), hex(want))),
                    Err(_) => bad.lock().unwrap().push(format!("{}: panic", op.show())),
                }
            });
        }
    });
    println!("ORDER {}", order.into_inner().unwrap().iter().map(|x| x.to_string()).collect::<String>());
    for b in bad.into_inner().unwrap() {
        println!("BAD {b}");
    }
    println!("DONE");
}
fn threads(i: u64, t: &mut Tape, cx: &mut Cx) {
    if trait_table().iter().any(|x| !x.2 || !x.1) {
        return;
    }
    let small = cfg!(miri);
    let nt = if small { 2 } else { *t.pick(&[2usize, 3, 4, 6, 8]) };
    let per = if small { 3 } else { *t.pick(&[4usize, 10, 25]) };
    let key = t.bytes(32);
    let n = Int::from_be(if small { &key[..2] } else { &key[..7] }).add(&n128(2));
    let x = if small { n128(5) } else { Int::from_be(&key[8..10]) };
    let sk = if small || i % 8 != 0 { None } else { Some(smooth_key(t, 540)) };
    // shared objects
    let made = cx.call(|| {
        (
            v::aes_bytes(&key[..16]),
            v::aes_bytes(&key),
            v::rc2_new(&key[..9], 72),
            v::rc5_new(&key[..11], 12),
            v::rsa_pub(v::import_pub("PUBLIC KEY", &at(&spki(&n, &x).enc())).expect("valid key")),
            v::big_be(&key),
            sk.as_ref().map(|(n, e, d)| {
                let o = std::array::from_fn(|_| n128(3));
                (v::rsa_pub(v::import_pub("PUBLIC KEY", &spki(n, e).enc()).expect("valid key")), v::rsa_priv(v::import_priv("PRIVATE KEY", &pkcs8(n, d, &o).enc()).expect("valid key")))
            }),
        )
    });
    let Ok(made) = made else {
        cx.viol("creating shared objects failed", hex(&key));
        return;
    };
    let shared = Share(made);
    let refs = (aes::Ref::new(&key[..16]), aes::Ref::new(&key), rc::Rc2::new(&key[..9], 72), rc::Rc5::new(&key[..11], 12));
    // work lists: operations on the shared objects and free-standing ones; neighbours run nearly equal work
    enum W {
        Aes(bool, [u8; 16], [u8; 16], [u8; 16]),
        Rc2([u8; 8], [u8; 8], [u8; 8]),
        Rc5([u8; 8], [u8; 8], [u8; 8]),
        Rsa(Vec<u8>, Vec<u8>),
        Big(Vec<u8>, Vec<u8>),
        Msg(Vec<u8>),
        Free(Op, Vec<u8>),
    }
    let mut proto: Vec<Op> = (0..4).map(|_| Op::gen_one(t)).collect();
    let mut plans: Vec<Vec<W>> = vec![];
    let mut ident: Vec<u8> = key.clone();
    for _ in 0..nt {
        let mut p = vec![];
        for _ in 0..per {
            let w = match t.below(10) {
                0 | 1 => {
                    let (big, b) = (t.chance(1, 2), t.arr::<16>());
                    let r = if big { &refs.1 } else { &refs.0 };
                    W::Aes(big, b, r.enc(b), r.dec(b))
                }
                2 => {
                    let b = t.arr::<8>();
                    W::Rc2(b, refs.2.enc(b), refs.2.dec(b))
                }
                3 => {
                    let b = t.arr::<8>();
                    W::Rc5(b, refs.3.enc(b), refs.3.dec(b))
                }
                4 => {
                    let m = t.blob(0, 9);
                    let w = Int::from_be(&m).modpow(&x, &n).to_be();
                    W::Rsa(m, w)
                }
                5 => {
                    let m = t.blob(1, 40);
                    let mut m = m;
                    m[0] |= 1;
                    let w = Int::from_be(&key).rem(&Int::from_be(&m)).to_be();
                    W::Big(m, w)
                }
                6 if sk.is_some() => W::Msg(t.blob(0, sk.as_ref().unwrap().0.bytes().saturating_sub(66))),
                _ => {
                    let k = t.below(proto.len() as u64) as usize;
                    let op = if t.chance(1, 3) { proto[k].clone() } else { proto[k].near(t) };
                    if t.chance(1, 4) {
                        proto[k] = op.clone();
                    }
                    let w = op.want();
                    ident.extend(op.bytes());
                    W::Free(op, w)
                }
            };
            p.push(w);
        }
        plans.push(p);
    }
    let order: Mutex<Vec<(u64, u8)>> = Mutex::new(vec![]);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let barrier = Barrier::new(nt);
    let calls = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let jitter = t.u64();
    let plans = Share(plans);
    let (shared, plans) = (&shared, &plans);
    std::thread::scope(|s| {
        for id in 0..nt {
            let (order, fails, barrier, calls, stop) = (&order, &fails, &barrier, &calls, &stop);
            s.spawn(move || {
                let sh = &shared.0;
                let plan = &plans.0[id];
                let mut r = Rng::new(jitter ^ (id as u64) << 8);
                let mut log = vec![];
                let mut buf = Vec::with_capacity(300);
                barrier.wait();
                for w in plan {
                    if stop.load(SeqCst) {
                        break;
                    }
                    match r.below(5) {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..r.below(200) {
                                std::hint::spin_loop();
                            }
                        }
                        _ => {}
                    }
                    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Fail> {
                        let eq = |what: &str, g: &[u8], w: &[u8], input: &[u8]| if g == w { Ok(()) } else { Err((format!("{what} on a shared object differs under concurrency"), format!("input {}: got {} want {}", hex(input), hex(g), hex(w)))) };
                        match w {
                            W::Aes(big, b, e, d) => {
                                let c = if *big { &sh.1 } else { &sh.0 };
                                eq("AES", &v::aes_enc(c, *b), e, b)?;
                                eq("AES", &v::aes_dec(c, *b), d, b)
                            }
                            W::Rc2(b, e, d) => {
                                eq("RC2", &v::rc2_enc(&sh.2, *b), e, b)?;
                                eq("RC2", &v::rc2_dec(&sh.2, *b), d, b)
                            }
                            W::Rc5(b, e, d) => {
                                eq("RC5", &v::rc5_enc(&sh.3, *b), e, b)?;
                                eq("RC5", &v::rc5_dec(&sh.3, *b), d, b)
                            }
                            W::Rsa(m, w) => eq("RSA operation", &v::rsa_enc(&sh.4, m), w, m),
                            W::Big(m, w) => {
                                let mut a = sh.5.clone();
                                v::big_rem(&mut a, &v::big_be(m));
                                eq("big integer", &v::big_to_be(&a), w, m)
                            }
                            W::Msg(m) => {
                                let (a, b) = sh.6.as_ref().unwrap();
                                let c = v::rsa_enc_msg(a, m);
                                eq("RSA message", &v::rsa_dec_msg(b, &c), m, m)
                            }
                            W::Free(op, w) => {
                                let g = op.run(&mut buf);
                                if g == *w { Ok(()) } else { Err((format!("{} differs under concurrency", op.name()), format!("{}: got {} want {}", op.show(), hex(&g), hex(w)))) }
                            }
                        }
                    }));
                    calls.fetch_add(1, SeqCst);
                    log.push((SEQ.fetch_add(1, SeqCst), id as u8));
                    let f = match done {
                        Ok(Ok(())) => continue,
                        Ok(Err(f)) => f,
                        Err(_) => ("an operation panicked under concurrency".to_string(), last_panic()),
                    };
                    fails.lock().unwrap().push(f);
                    stop.store(true, SeqCst);
                }
                order.lock().unwrap().extend(log);
            });
        }
    });
    let mut ord = order.into_inner().unwrap();
    ord.sort();
    let seq: Vec<u8> = ord.iter().map(|x| x.1).collect();
    let switches = seq.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    let calls = calls.into_inner() as u64;
    cx.calls += calls;
    cx.case(&[b"threads", &ident, &seq]);
    cx.class("concurrent runs");
    cx.class_n("concurrent operations", calls);
    cx.class_n("observed thread switches", switches);
    if switches >= 2 * nt as u64 {
        cx.class("runs with real interleaving");
    }
    for (s, d) in fails.into_inner().unwrap() {
        cx.viol(&s, format!("{nt} threads, completion order {seq:?}: {d}"));
    }
    cx.sample(29, || format!("{nt} threads x {per} operations, completion order {seq:?}"));
}

// ------------------------------------------------------------------ C24

pub static C24: Prop = Prop {
    id: "C24",
    rule: "a case is one workload step of any other property (well-formed and malformed arguments alike) or one step of the dedicated small workload, executed under AddressSanitizer with all overflow, debug and standard-library precondition checks on, and (small workload) under Miri; only memory errors, undefined behaviour and abnormal termination count here; distinct by content",
    scenarios: &[
        Scenario::sweep("ub-small", 120, 400, ub_small),
        Scenario::random("ub-mix", 10, ub_mix),
        Scenario::random("ub-small-random", 2, ub_small),
    ],
    cap: 2 << 30,
};
fn ub_mix(i: u64, t: &mut Tape, cx: &mut Cx) {
    let all = super::all();
    let p = all[t.below(all.len() as u64) as usize];
    if p.id == "C24" || p.id == "C25" {
        return;
    }
    let s: Vec<&Scenario> = p.scenarios.iter().filter(|s| !s.heavy && s.name != "pow-large" && s.name != "import-large" && s.name != "big-inputs" && s.name != "asn1-large" && s.name != "deep").collect();
    let s = s[t.below(s.len() as u64) as usize];
    let idx = if s.sweep.0 > 0 { t.below(s.sweep.0) } else { i };
    (s.f)(idx, t, cx);
    cx.viols.clear();
    cx.class(&format!("workload of {}", p.id));
}
/// cheap, broad, also suitable for an interpreter
fn ub_small(i: u64, t: &mut Tape, cx: &mut Cx) {
    let mut buf = vec![];
    match i % 6 {
        0 | 1 => {
            for _ in 0..6 {
                let op = Op::gen_one(t);
                cx.case(&[op.name().as_bytes(), &op.bytes()]);
                #[cfg(miri)]
                if std::env::var_os("VP_TRACE").is_some() {
                    eprintln!("op {} {}", op.name(), hex(&op.bytes()));
                }
                let _ = cx.call(|| op.run(&mut buf));
                cx.class(op.name());
            }
        }
        2 => {
            let b = t.blob(0, 60);
            cx.case(&[b"asn1", &b]);
            let _ = cx.call(|| v::asn1_parse(&b).is_ok());
            let _ = cx.call(|| v::import_priv("PRIVATE KEY", &b).is_ok());
            let _ = cx.call(|| v::import_pub("PUBLIC KEY", &b).is_ok());
            let s = String::from_utf8_lossy(&b).into_owned();
            let _ = cx.call(|| v::pem_parse(&s).is_ok());
            for n in [20usize, 28, 32, 48, 64] {
                let _ = cx.call(|| v::hash_from_hex(n, &b).is_ok());
                let h: String = b.iter().chain([0u8; 64].iter()).take(n).map(|x| format!("{x:02x}")).collect();
                let _ = cx.call(|| v::hash_words(n, &h).is_ok());
                let _ = cx.call(|| v::hash_eq(n, &h, &h));
                let w: Vec<u64> = (0..8).map(|k| k * 0x0123456789abcdef).collect();
                let _ = cx.call(|| v::hash_from_words(n, &w));
            }
            let k = t.size(0, 200);
            let _ = cx.call(|| v::oaep_decode(&b, &b, k).is_ok());
            let _ = cx.call(|| v::oaep_decode(&b, &b, b.len()).is_ok());
            cx.class("decoders on arbitrary bytes");
        }
        3 => {
            let w = if cfg!(miri) { 7 } else { 20 };
            let (a, b) = (t.blob(0, w), t.blob(0, w));
            cx.case(&[b"big", &a, b"/", &b]);
            let n = t.size(0, 200) as u32;
            let bit = t.chance(1, 2);
            let _ = cx.call(|| {
                let mut x = v::big_be(&a);
                let y = v::big_le(&b);
                let _ = v::big_cmp(&x, &y);
                v::big_add(&mut x, &y);
                v::big_add_u8(&mut x, 255);
                v::big_shl(&mut x, n);
                v::big_shr(&mut x, n / 2);
                let _ = (v::big_bits(&x), v::big_is_set(&x, n), v::big_as_u128(&x));
            });
            let _ = cx.call(|| {
                let mut x = v::big_be(&a);
                v::big_sub(&mut x, &v::big_be(&b));
            });
            let _ = cx.call(|| {
                let mut x = v::big_be(&a);
                v::big_update(&mut x, n, bit);
                v::big_to_be(&x)
            });
            let _ = cx.call(|| {
                let mut x = v::big_be(&a);
                v::big_rem(&mut x, &v::big_be(&b));
            });
            let _ = cx.call(|| {
                let mut x = v::big_be(&a);
                v::big_shr(&mut x, 8 * n);
            });
            cx.class("big-integer calls with arbitrary arguments");
        }
        4 => {
            let n = (*t.pick(v::PAD_SIZES)).min(if cfg!(miri) { 300 } else { 65537 });
            let p = t.blob(0, n + 1);
            cx.case(&[b"pad", &(n as u64).to_le_bytes(), &p]);
            let _ = cx.call(|| v::pkcs_pad(n, &p));
            let _ = cx.call(|| v::bit_pad(n, &p));
            let b = t.bytes(n);
            let _ = cx.call(|| v::pkcs_unpad(n, &b));
            let _ = cx.call(|| v::bit_unpad(n, &b));
            let mut z = vec![0; n];
            let _ = cx.call(|| v::bit_unpad(n, &z));
            let _ = cx.call(|| v::pkcs_unpad(n, &z));
            z.fill(255);
            let _ = cx.call(|| v::pkcs_unpad(n, &z));
            cx.class("padding calls with arbitrary blocks");
        }
        _ => {
            let k = t.blob(0, 300);
            let r = t.byte();
            let d = t.blob(0, 40);
            cx.case(&[b"keys", &k, &[r], &d]);
            let bits = t.size(0, 1100) as u16;
            let _ = cx.call(|| v::rc2_enc(&v::rc2_new(&k, bits), [r; 8]));
            let _ = cx.call(|| v::rc5_dec(&v::rc5_new(&k, r), [r; 8]));
            let _ = cx.call(|| v::rc4_decrypt(&k, &d));
            let key = [7u8; 16];
            let tr = v::Trace::default();
            let _ = cx.call(|| v::CipherSpec::Aes(key.to_vec()).drive(v::Dir::Dec, v::MODES, &[], &d, &tr));
            let _ = cx.call(|| v::CipherSpec::Toy(7, key.to_vec()).drive(v::Dir::Enc, 1, &[1; 7], &d, &tr));
            let (p, q, e) = (t.u64(), t.u64(), t.u64());
            let _ = cx.call(|| v::rsa_create(&p.to_be_bytes(), &q.to_be_bytes(), &e.to_be_bytes()));
            cx.class("constructors with arbitrary arguments");
        }
    }
}
