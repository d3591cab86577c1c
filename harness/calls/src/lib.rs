//! The client boundary: every call into the code under test is made from this crate, so that
//! generic code is instantiated here (and can be instrumented together with the library), and
//! so that the rest of the harness never depends on how the library is written.

use cryptography::aes::{Aes, Key128, Key192, Key256};
use cryptography::big::BigUint;
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::pem::asn1::Asn1;
use cryptography::pem::PEM;
use cryptography::rsa::{create_keys, PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding};
use cryptography::sha::{Hash160, Hash224, Hash256, Hash384, Hash512};
use cryptography::{Block, BlockCipher, BlockCipherMode, BlockEncryption, EcbMode, StreamCipher};
use hex::FromHex;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::str::FromStr;

pub use cryptography;
pub type Rc2 = cryptography::rc2;
pub type Rc4 = cryptography::rc4;
pub type Rc5 = cryptography::rc5;

// ---------------------------------------------------------------- block ciphers

/// The bytes as they are, or (in checked builds, every other time) a copy that starts at another
/// alignment and ends where its allocation ends: callers do not promise aligned slices.
enum Skew<'a> {
    Same(&'a [u8]),
    Moved(Vec<u8>, usize),
}
fn skew(b: &[u8]) -> Skew<'_> {
    thread_local!(static TURN: Cell<usize> = const { Cell::new(0) });
    if !cfg!(debug_assertions) || b.len() > 1 << 16 {
        return Skew::Same(b);
    }
    let n = TURN.get();
    TURN.set(n + 1);
    let at = n / 2 % 8;
    if n % 2 == 0 || at == 0 {
        return Skew::Same(b);
    }
    let mut v = Vec::with_capacity(at + b.len());
    v.resize(at, 0xa5);
    v.extend_from_slice(b);
    Skew::Moved(v, at)
}
impl std::ops::Deref for Skew<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        match self {
            Skew::Same(b) => b,
            Skew::Moved(v, at) => &v[*at..],
        }
    }
}

#[inline(never)]
pub fn aes_bytes(key: &[u8]) -> Aes {
    match key.len() {
        16 => Aes::with_128_bit_key(key.try_into().unwrap()),
        24 => Aes::with_192_bit_key(key.try_into().unwrap()),
        32 => Aes::with_256_bit_key(key.try_into().unwrap()),
        _ => unreachable!(),
    }
}

#[inline(never)]
pub fn aes_words(w: &[u64]) -> Aes {
    match w.len() {
        2 => Aes::from(Key128::from([w[0], w[1]])),
        3 => Aes::from(Key192::from([w[0], w[1], w[2]])),
        4 => Aes::from(Key256::from([w[0], w[1], w[2], w[3]])),
        _ => unreachable!(),
    }
}

#[inline(never)]
pub fn aes_enc(c: &Aes, b: [u8; 16]) -> [u8; 16] {
    c.encrypt(b)
}
#[inline(never)]
pub fn aes_dec(c: &Aes, b: [u8; 16]) -> [u8; 16] {
    c.decrypt(b)
}
#[inline(never)]
pub fn rc2_new(key: &[u8], bits: u16) -> Rc2 {
    let key = &*skew(key);
    Rc2::from_key(key, bits)
}
#[inline(never)]
pub fn rc2_enc(c: &Rc2, b: [u8; 8]) -> [u8; 8] {
    c.encrypt(b)
}
#[inline(never)]
pub fn rc2_dec(c: &Rc2, b: [u8; 8]) -> [u8; 8] {
    c.decrypt(b)
}
#[inline(never)]
pub fn rc5_new(key: &[u8], rounds: u8) -> Rc5 {
    let key = &*skew(key);
    Rc5::new(key, rounds)
}
#[inline(never)]
pub fn rc5_enc(c: &Rc5, b: [u8; 8]) -> [u8; 8] {
    c.encrypt(b)
}
#[inline(never)]
pub fn rc5_dec(c: &Rc5, b: [u8; 8]) -> [u8; 8] {
    c.decrypt(b)
}

// ---------------------------------------------------------------- RC4 and stream ciphers

#[inline(never)]
pub fn rc4_stream(key: &[u8], n: usize) -> Vec<u8> {
    let key = &*skew(key);
    Rc4::new(key).take(n).collect()
}
#[inline(never)]
pub fn rc4_next(ks: &mut Rc4, n: usize, out: &mut Vec<u8>) {
    out.clear();
    out.extend(ks.take(n));
}
/// What a message of billions of bytes was seen to do (checked while it runs, nothing is stored).
#[derive(Default)]
pub struct FarSeen {
    pub calls: Cell<u64>,
    pub wrong_dir: Cell<bool>,
    pub wrong_block: Cell<Option<u64>>,
    pub out: Cell<u64>,
    pub wrong_out: Cell<Option<u64>>,
}
fn far_byte(block: u64, j: usize) -> u8 {
    (block.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) as u8 ^ (block >> 32) as u8 ^ (j as u8).wrapping_mul(29)
}
struct FarMode<'a, const N: usize> {
    seen: &'a FarSeen,
    input: &'a [u8],
    dir: Dir,
    last: Option<(u64, Block<N>)>,
}
impl<const N: usize> FarMode<'_, N> {
    fn step(&mut self, dir: Dir, block: Block<N>) -> Block<N> {
        let i = self.seen.calls.get();
        self.seen.calls.set(i + 1);
        if dir != self.dir {
            self.seen.wrong_dir.set(true);
        }
        let at = i as usize * N;
        let given = self.input.get(at..at + N).map(|w| w == block).unwrap_or_else(|| {
            // the padded end of the message
            let tail = self.input.get(at..).unwrap_or(&[]);
            let p = (N - tail.len()) as u8;
            dir == Dir::Enc && at <= self.input.len() && block[..tail.len()] == *tail && block[tail.len()..].iter().all(|&b| b == p)
        });
        if !given && self.seen.wrong_block.get().is_none() {
            self.seen.wrong_block.set(Some(i));
        }
        match self.last {
            Some((k, b)) if k == i => b,
            _ => std::array::from_fn(|j| far_byte(i, j)),
        }
    }
}
impl<const N: usize> BlockCipherMode<N> for FarMode<'_, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _: &C, block: Block<N>) -> Block<N> {
        self.step(Dir::Enc, block)
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _: &C, block: Block<N>) -> Block<N> {
        self.step(Dir::Dec, block)
    }
}
struct NoCipher;
impl<const N: usize> BlockCipher<N> for NoCipher {
    fn encrypt(&self, b: Block<N>) -> Block<N> {
        b
    }
    fn decrypt(&self, b: Block<N>) -> Block<N> {
        b
    }
}
fn far_n<const N: usize>(dir: Dir, input: &[u8], last: Option<(u64, &[u8])>, seen: &FarSeen) {
    let last = last.map(|(k, b)| (k, <Block<N>>::try_from(b).unwrap()));
    let mode = FarMode::<N> { seen, input, dir, last };
    let sink = |b: u8| {
        let k = seen.out.get();
        seen.out.set(k + 1);
        let (i, j) = (k / N as u64, (k % N as u64) as usize);
        let want = match last {
            Some((l, x)) if l == i => x[j],
            _ => far_byte(i, j),
        };
        if b != want && seen.wrong_out.get().is_none() {
            seen.wrong_out.set(Some(k));
        }
    };
    match dir {
        Dir::Enc => BlockEncryption::encrypt(NoCipher, mode, input, sink),
        Dir::Dec => BlockEncryption::decrypt(NoCipher, mode, input, sink),
    }
}
/// A huge message through the block driver. `last`: the block the mode answers for that index.
#[inline(never)]
pub fn msg_far(n: usize, dir: Dir, input: &[u8], last: Option<(u64, &[u8])>, seen: &FarSeen) {
    match n {
        1 => far_n::<1>(dir, input, last, seen),
        16 => far_n::<16>(dir, input, last, seen),
        _ => far_n::<255>(dir, input, last, seen),
    }
}

/// A keystream that counts up and a message of `n` zero bytes in one encrypt call: the first index
/// whose byte is not the keystream's, if any.
#[inline(never)]
pub fn stream_far(n: u64) -> Option<u64> {
    let keys = (0u64..).map(|i| (i ^ i >> 8 ^ i >> 16 ^ i >> 24 ^ i >> 32) as u8);
    let mut c = StreamCipher::new(keys.clone());
    let data = (0..n).map(|_| 0u8);
    let mut at = 0;
    for (a, b) in c.encrypt(data).zip(keys) {
        if a != b {
            return Some(at);
        }
        at += 1;
    }
    if at == n { None } else { Some(at) }
}
#[inline(never)]
pub fn rc4_encrypt(key: &[u8], data: &[u8]) -> Vec<u8> {
    let key = &*skew(key);
    let data = &*skew(data);
    Rc4::new(key).encrypt(data)
}
#[inline(never)]
pub fn rc4_decrypt(key: &[u8], data: &[u8]) -> Vec<u8> {
    let key = &*skew(key);
    let data = &*skew(data);
    Rc4::new(key).decrypt(data)
}

/// Reads a keystream in the ways iterators offer. Each step gives the bytes it read with their
/// offsets; `upper` is the smallest end position any size hint promised.
#[inline(never)]
pub fn rc4_walk(key: &[u8], steps: &[(u8, usize)], tail: &[u8]) -> (Vec<(u64, u8)>, Option<u64>, Vec<u8>, u64) {
    let mut it = Rc4::new(key);
    let mut at = 0u64;
    let mut got = vec![];
    let mut upper: Option<u64> = None;
    for &(op, n) in steps {
        if let (_, Some(u)) = it.size_hint() {
            upper = Some(upper.unwrap_or(u64::MAX).min(at.saturating_add(u as u64)));
        }
        match op % 8 {
            0 => {
                for _ in 0..n {
                    let Some(b) = it.next() else { return (got, Some(at), vec![], at) };
                    got.push((at, b));
                    at += 1;
                }
            }
            1 => {
                let Some(b) = it.nth(n) else { return (got, Some(at), vec![], at) };
                at += n as u64;
                got.push((at, b));
                at += 1;
            }
            2 => {
                let Some(b) = it.by_ref().skip(n).next() else { return (got, Some(at), vec![], at) };
                at += n as u64;
                got.push((at, b));
                at += 1;
            }
            3 => {
                let k = n % 7 + 1;
                let v: Vec<u8> = it.by_ref().step_by(k).take(5).collect();
                for (i, &b) in v.iter().enumerate() {
                    got.push((at + (i * k) as u64, b));
                }
                at += 1 + 4 * k as u64;
            }
            4 => {
                let mut buf = vec![];
                buf.extend(it.by_ref().take(n));
                for b in buf {
                    got.push((at, b));
                    at += 1;
                }
            }
            5 => {
                // the last of n + 1 bytes
                let Some(b) = it.by_ref().take(n + 1).last() else { return (got, Some(at), vec![], at) };
                got.push((at + n as u64, b));
                at += n as u64 + 1;
            }
            6 => {
                let v = it.by_ref().zip(0..n).fold(vec![], |mut v, (b, _)| {
                    v.push(b);
                    v
                });
                for b in v {
                    got.push((at, b));
                    at += 1;
                }
                at += 1; // zip reads one more from its first side
            }
            _ => {
                let mut seen = 0usize;
                it.by_ref().any(|b| {
                    got.push((at + seen as u64, b));
                    seen += 1;
                    seen > n
                });
                at += seen as u64;
            }
        }
    }
    let out = it.encrypt(tail);
    (got, upper, out, at)
}

/// A keystream whose consumption is observable.
pub struct CountedKeys {
    pub keys: Vec<u8>, // repeated if `cyclic`
    pub cyclic: bool,
    pub pos: Rc<Cell<usize>>,
}
impl Iterator for CountedKeys {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let p = self.pos.get();
        let k = if self.cyclic && !self.keys.is_empty() {
            Some(self.keys[p % self.keys.len()])
        } else {
            self.keys.get(p).copied()
        };
        if k.is_some() {
            self.pos.set(p + 1);
        }
        k
    }
}

pub enum Keys {
    Counted(CountedKeys),
    Rc4(Rc4),
}
impl Iterator for Keys {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        match self {
            Keys::Counted(c) => c.next(),
            Keys::Rc4(c) => c.next(),
        }
    }
}

pub struct Stream(StreamCipher<Keys>);

#[inline(never)]
pub fn stream_new(keys: Keys) -> Stream {
    Stream(StreamCipher::new(keys))
}

pub const STREAM_STYLES: u8 = 7;
/// One encrypt call of which only the bytes with `keep` (cyclic) are looked at, the others being
/// skipped with nth; gives (index in data, byte), and the size hint of the iterator at the start.
#[inline(never)]
pub fn stream_skip(s: &mut Stream, data: &[u8], gaps: &[usize]) -> (Vec<(usize, u8)>, usize, (usize, Option<usize>)) {
    let mut it = s.0.encrypt(data.iter().copied());
    let hint = it.size_hint();
    let mut at = 0;
    let mut got = vec![];
    for &g in gaps {
        if at + g >= data.len() {
            break;
        }
        match it.nth(g) {
            Some(b) => got.push((at + g, b)),
            None => break,
        }
        at += g + 1;
    }
    (got, at, hint)
}

/// One encrypt call of which `take` bytes are read; `style` selects how data is supplied and read.
/// Every byte read is pushed to `out` as soon as it is produced.
#[inline(never)]
pub fn stream_piece(s: &mut Stream, data: &[u8], take: usize, style: u8, out: &mut Vec<u8>) {
    match style % STREAM_STYLES {
        5 => {
            // a source whose length is not known in advance
            let w: Vec<(u8, bool)> = data.iter().flat_map(|&b| [(!b, false), (b, true), (b, false)]).collect();
            for b in s.0.encrypt(w.into_iter().filter(|x| x.1).map(|x| x.0)).take(take) {
                out.push(b);
            }
        }
        6 => {
            let mut i = 0;
            let src = std::iter::from_fn(|| {
                let b = data.get(i).copied();
                i += 1;
                b
            });
            let mut it = s.0.encrypt(src);
            for _ in 0..take.min(data.len()) {
                match it.next() {
                    Some(b) => out.push(b),
                    None => break,
                }
            }
        }
        0 => {
            for b in s.0.encrypt(data.iter().copied()).take(take) {
                out.push(b);
            }
        }
        1 => {
            let mut it = s.0.encrypt(data.to_vec());
            for _ in 0..take.min(data.len()) {
                match it.next() {
                    Some(b) => out.push(b),
                    None => break,
                }
            }
        }
        2 => {
            let (a, b) = data.split_at(data.len() / 2);
            for x in s.0.encrypt(a.iter().chain(b.iter()).cloned()).take(take) {
                out.push(x);
            }
        }
        3 => {
            // read everything, including the final None, when everything is wanted
            if take >= data.len() {
                out.extend(s.0.encrypt(data.iter().copied()));
            } else {
                let v: Vec<u8> = s.0.encrypt(data.iter().copied()).take(take).collect();
                out.extend(v);
            }
        }
        _ => {
            let q: std::collections::VecDeque<u8> = data.iter().copied().collect();
            let mut it = s.0.encrypt(q);
            let mut left = take;
            while left > 0 {
                let Some(b) = it.next() else { break };
                out.push(b);
                left -= 1;
            }
        }
    }
}

// ---------------------------------------------------------------- block messages

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Enc,
    Dec,
}

#[derive(Default)]
pub struct Trace {
    /// one entry per mode invocation: direction and block given
    pub mode_calls: RefCell<Vec<(Dir, Vec<u8>)>>,
    /// one entry per raw cipher invocation made by the mode
    pub cipher_calls: Cell<u64>,
    pub out: RefCell<Vec<u8>>,
}

/// A keyed permutation of N-byte blocks with no structure that depends on N.
#[derive(Clone)]
pub struct Toy<const N: usize> {
    pub key: Vec<u8>,
}
impl<const N: usize> Toy<N> {
    fn k(&self, i: usize) -> u8 {
        self.key[i % self.key.len()].wrapping_add(i as u8)
    }
}
impl<const N: usize> BlockCipher<N> for Toy<N> {
    fn encrypt(&self, p: Block<N>) -> Block<N> {
        let mut b = p;
        let mut acc = 0x3du8;
        for i in 0..N {
            b[i] = b[i].wrapping_mul(5).wrapping_add(self.k(i) ^ acc);
            acc = acc.rotate_left(3) ^ b[i];
        }
        b.reverse();
        b
    }
    fn decrypt(&self, c: Block<N>) -> Block<N> {
        let mut b = c;
        b.reverse();
        let mut acc = 0x3du8;
        for i in 0..N {
            let e = b[i];
            b[i] = e.wrapping_sub(self.k(i) ^ acc).wrapping_mul(205);
            acc = acc.rotate_left(3) ^ e;
        }
        b
    }
}

/// Mode kinds: 0 = stateless, 1 = CBC, 2 = position tweak, 3 = plaintext+ciphertext chaining.
pub const MODES: u8 = 4;

pub struct TraceMode<'a, const N: usize> {
    kind: u8,
    chain: [u8; N],
    pos: u64,
    trace: &'a Trace,
}

impl<'a, const N: usize> TraceMode<'a, N> {
    pub fn new(kind: u8, iv: &[u8], trace: &'a Trace) -> Self {
        let mut chain = [0; N];
        for (i, c) in chain.iter_mut().enumerate() {
            *c = if iv.is_empty() { 0 } else { iv[i % iv.len()] };
        }
        Self { kind, chain, pos: 0, trace }
    }
    fn tweak(&self, i: usize) -> u8 {
        match self.kind {
            0 => 0,
            2 => self.chain[i] ^ (self.pos.wrapping_mul(0x9E3779B97F4A7C15) >> (8 * (i % 8))) as u8,
            _ => self.chain[i],
        }
    }
    pub fn enc<C: BlockCipher<N>>(&mut self, cipher: &C, block: Block<N>) -> Block<N> {
        let mut x = block;
        for i in 0..N {
            x[i] ^= self.tweak(i);
        }
        let y = cipher.encrypt(x);
        self.advance(&block, &y);
        y
    }
    pub fn dec<C: BlockCipher<N>>(&mut self, cipher: &C, block: Block<N>) -> Block<N> {
        let mut x = cipher.decrypt(block);
        for i in 0..N {
            x[i] ^= self.tweak(i);
        }
        self.advance(&x, &block);
        x
    }
    fn advance(&mut self, p: &Block<N>, c: &Block<N>) {
        self.pos += 1;
        match self.kind {
            1 => self.chain = *c,
            3 => {
                for i in 0..N {
                    self.chain[i] = p[i] ^ c[i];
                }
            }
            _ => {}
        }
    }
}

impl<const N: usize> BlockCipherMode<N> for TraceMode<'_, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, cipher: &C, block: Block<N>) -> Block<N> {
        self.trace.mode_calls.borrow_mut().push((Dir::Enc, block.to_vec()));
        self.trace.cipher_calls.set(self.trace.cipher_calls.get() + 1);
        self.enc(cipher, block)
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, cipher: &C, block: Block<N>) -> Block<N> {
        self.trace.mode_calls.borrow_mut().push((Dir::Dec, block.to_vec()));
        self.trace.cipher_calls.set(self.trace.cipher_calls.get() + 1);
        self.dec(cipher, block)
    }
}

/// Runs the library's message driver; `mode` MODES means the library's own ECB mode.
#[inline(never)]
fn drive<const N: usize, C: BlockCipher<N>>(c: C, dir: Dir, mode: u8, iv: &[u8], data: &[u8], t: &Trace) {
    let sink = |b: u8| t.out.borrow_mut().push(b);
    if mode == MODES {
        match dir {
            Dir::Enc => BlockEncryption::encrypt(c, EcbMode::<N>, data, sink),
            Dir::Dec => BlockEncryption::decrypt(c, EcbMode::<N>, data, sink),
        }
    } else {
        let m = TraceMode::<N>::new(mode, iv, t);
        match dir {
            Dir::Enc => BlockEncryption::encrypt(c, m, data, sink),
            Dir::Dec => BlockEncryption::decrypt(c, m, data, sink),
        }
    }
}

/// The same work done block by block by the harness itself (no library driver, no padding).
#[inline(never)]
fn manual<const N: usize, C: BlockCipher<N>>(c: C, dir: Dir, mode: u8, iv: &[u8], blocks: &[u8]) -> Vec<u8> {
    assert!(blocks.len() % N == 0);
    let t = Trace::default();
    let mut m = TraceMode::<N>::new(if mode == MODES { 0 } else { mode }, iv, &t);
    let mut out = Vec::with_capacity(blocks.len());
    for b in blocks.chunks(N) {
        let b: [u8; N] = b.try_into().unwrap();
        let o = match dir {
            Dir::Enc => m.enc(&c, b),
            Dir::Dec => m.dec(&c, b),
        };
        out.extend_from_slice(&o);
    }
    out
}

#[derive(Clone, Debug)]
pub enum CipherSpec {
    Toy(usize, Vec<u8>),
    Aes(Vec<u8>),
    Rc2(Vec<u8>, u16),
    Rc5(Vec<u8>, u8),
}

macro_rules! sizes {
    ($mac:ident) => {
        $mac! { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255 }
    };
}
macro_rules! size_list { ($($n:literal),*) => { pub const BLOCK_SIZES: &[usize] = &[$($n),*]; } }
sizes!(size_list);

impl CipherSpec {
    pub fn block(&self) -> usize {
        match self {
            CipherSpec::Toy(n, _) => *n,
            CipherSpec::Aes(_) => 16,
            _ => 8,
        }
    }
    pub fn drive(&self, dir: Dir, mode: u8, iv: &[u8], data: &[u8], t: &Trace) {
        let data = &*skew(data);
        match self {
            CipherSpec::Toy(n, k) => {
                macro_rules! go { ($($n:literal),*) => { match *n { $($n => drive::<$n, _>(Toy::<$n> { key: k.clone() }, dir, mode, iv, data, t),)* _ => unreachable!() } } }
                sizes!(go)
            }
            CipherSpec::Aes(k) => drive(aes_bytes(k), dir, mode, iv, data, t),
            CipherSpec::Rc2(k, b) => drive(rc2_new(k, *b), dir, mode, iv, data, t),
            CipherSpec::Rc5(k, r) => drive(rc5_new(k, *r), dir, mode, iv, data, t),
        }
    }
    pub fn manual(&self, dir: Dir, mode: u8, iv: &[u8], blocks: &[u8]) -> Vec<u8> {
        match self {
            CipherSpec::Toy(n, k) => {
                macro_rules! go { ($($n:literal),*) => { match *n { $($n => manual::<$n, _>(Toy::<$n> { key: k.clone() }, dir, mode, iv, blocks),)* _ => unreachable!() } } }
                sizes!(go)
            }
            CipherSpec::Aes(k) => manual(aes_bytes(k), dir, mode, iv, blocks),
            CipherSpec::Rc2(k, b) => manual(rc2_new(k, *b), dir, mode, iv, blocks),
            CipherSpec::Rc5(k, r) => manual(rc5_new(k, *r), dir, mode, iv, blocks),
        }
    }
}

// ---------------------------------------------------------------- padding

macro_rules! pad_fns { ($($n:literal),*) => {
    pub const PAD_SIZES: &[usize] = &[$($n),*];
    #[inline(never)]
    pub fn pkcs_pad(n: usize, p: &[u8]) -> Vec<u8> { let p = &*skew(p); match n { $($n => pkcs_pad_n::<$n>(p),)* _ => unreachable!() } }
    #[inline(never)]
    pub fn pkcs_unpad(n: usize, b: &[u8]) -> usize { match n { $($n => pkcs_unpad_n::<$n>(b),)* _ => unreachable!() } }
    #[inline(never)]
    pub fn bit_pad(n: usize, p: &[u8]) -> Vec<u8> { let p = &*skew(p); match n { $($n => bit_pad_n::<$n>(p),)* _ => unreachable!() } }
    #[inline(never)]
    pub fn bit_unpad(n: usize, b: &[u8]) -> (Vec<u8>, usize) { match n { $($n => bit_unpad_n::<$n>(b),)* _ => unreachable!() } }
} }
#[inline(never)]
fn pkcs_pad_n<const N: usize>(p: &[u8]) -> Vec<u8> {
    PkcsPadding::<N>.pad(p).to_vec()
}
#[inline(never)]
fn pkcs_unpad_n<const N: usize>(b: &[u8]) -> usize {
    PkcsPadding::<N>.unpad(b.try_into().unwrap())
}
#[inline(never)]
fn bit_pad_n<const N: usize>(p: &[u8]) -> Vec<u8> {
    BitPadding::<N>.pad(p).to_vec()
}
#[inline(never)]
fn bit_unpad_n<const N: usize>(b: &[u8]) -> (Vec<u8>, usize) {
    let (x, l) = BitPadding::<N>.unpad(b.try_into().unwrap());
    (x.to_vec(), l)
}
pad_fns!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4096, 8191, 65536, 65537);

// ---------------------------------------------------------------- hashes

#[inline(never)]
fn md_any<'a>(alg: u8, it: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    match alg {
        2 => cryptography::md2(it),
        4 => cryptography::md4(it),
        5 => cryptography::md5(it),
        _ => unreachable!(),
    }
}
/// A byte source with a legal but unhelpful size hint.
struct Vague<'a> {
    data: &'a [u8],
    at: usize,
    low: usize,
    high: Option<usize>,
}
impl<'a> Iterator for Vague<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        let b = self.data.get(self.at)?;
        self.at += 1;
        Some(b)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.data.len() - self.at;
        (self.low.min(left), self.high.map(|h| h.saturating_add(left)))
    }
}
pub const MD_STYLES: u8 = 12;
/// Hashes `m` supplied through one of several iterator types.
pub fn md(alg: u8, m: &[u8], style: u8) -> [u8; 16] {
    let m = &*skew(m);
    match style % MD_STYLES {
        0 => md_any(alg, m),
        1 => md_any(alg, &m.to_vec()),
        2 => {
            let (a, b) = m.split_at(m.len() / 3);
            md_any(alg, a.iter().chain(b.iter()))
        }
        3 => {
            let q: std::collections::VecDeque<u8> = m.iter().copied().collect();
            md_any(alg, &q)
        }
        4 => md_any(alg, m.chunks(7).flat_map(|c| c.iter())),
        6 => md_any(alg, Vague { data: m, at: 0, low: m.len() / 2, high: None }),
        7 => md_any(alg, Vague { data: m, at: 0, low: 1, high: Some(70) }),
        8 => md_any(alg, Vague { data: m, at: 0, low: 0, high: Some(usize::MAX) }),
        9 => {
            // every other byte of a longer source, some of it filtered out
            let w: Vec<(u8, bool)> = m.iter().flat_map(|&b| [(b, true), (!b, false)]).collect();
            let k = w.len() / 4;
            md_any(alg, w[..k].iter().chain(w[k..].iter()).filter(|x| x.1).map(|x| &x.0))
        }
        10 => {
            let r: Vec<u8> = m.iter().rev().copied().collect();
            md_any(alg, r.iter().rev())
        }
        11 => {
            let w: Vec<u8> = m.iter().flat_map(|&b| [b, b ^ 0x5a, 0]).collect();
            let k = m.len() - m.len() / 3;
            md_any(alg, w.iter().step_by(3).take(k).chain(m[k..].iter()))
        }
        _ => {
            let l: std::collections::LinkedList<u8> = m.iter().copied().collect();
            md_any(alg, &l)
        }
    }
}
/// n copies of one byte, without materialising them
pub fn md_repeat(alg: u8, b: u8, n: usize) -> [u8; 16] {
    md_any(alg, std::iter::repeat_n(&b, n))
}

#[inline(never)]
pub fn sha(alg: u16, m: &[u8]) -> Vec<u8> {
    let m = &*skew(m);
    match alg {
        1 => <[u8; 20]>::from(cryptography::sha::sha1(m)).to_vec(),
        224 => <[u8; 28]>::from(cryptography::sha::sha224(m)).to_vec(),
        256 => <[u8; 32]>::from(cryptography::sha::sha256(m)).to_vec(),
        384 => <[u8; 48]>::from(cryptography::sha::sha384(m)).to_vec(),
        512 => <[u8; 64]>::from(cryptography::sha::sha512(m)).to_vec(),
        _ => unreachable!(),
    }
}

/// Parses hex text as a digest of `n` bytes.
#[inline(never)]
pub fn hash_from_hex(n: usize, s: &[u8]) -> Result<Vec<u8>, String> {
    let s = &*skew(s);
    fn go<const N: usize>(r: Result<impl Into<[u8; N]>, hex::FromHexError>) -> Result<Vec<u8>, String> {
        r.map(|h| h.into().to_vec()).map_err(|e| e.to_string())
    }
    match n {
        20 => go::<20>(Hash160::from_hex(s)),
        28 => go::<28>(Hash224::from_hex(s)),
        32 => go::<32>(Hash256::from_hex(s)),
        48 => go::<48>(Hash384::from_hex(s)),
        64 => go::<64>(Hash512::from_hex(s)),
        _ => unreachable!(),
    }
}

/// hex -> digest -> words (each widened to u64), and words -> digest -> bytes.
#[inline(never)]
pub fn hash_words(n: usize, hexs: &str) -> Result<Vec<u64>, String> {
    fn w32<const W: usize>(h: impl Into<[u32; W]>) -> Vec<u64> {
        h.into().iter().map(|&x| x as u64).collect()
    }
    fn w64<const W: usize>(h: impl Into<[u64; W]>) -> Vec<u64> {
        h.into().to_vec()
    }
    let e = |e: hex::FromHexError| e.to_string();
    Ok(match n {
        20 => w32::<5>(Hash160::from_hex(hexs).map_err(e)?),
        28 => w32::<7>(Hash224::from_hex(hexs).map_err(e)?),
        32 => w32::<8>(Hash256::from_hex(hexs).map_err(e)?),
        48 => w64::<6>(Hash384::from_hex(hexs).map_err(e)?),
        64 => w64::<8>(Hash512::from_hex(hexs).map_err(e)?),
        _ => unreachable!(),
    })
}
#[inline(never)]
pub fn hash_from_words(n: usize, w: &[u64]) -> Vec<u8> {
    fn a32<const W: usize>(w: &[u64]) -> [u32; W] {
        core::array::from_fn(|i| w[i] as u32)
    }
    fn a64<const W: usize>(w: &[u64]) -> [u64; W] {
        core::array::from_fn(|i| w[i])
    }
    match n {
        20 => <[u8; 20]>::from(Hash160::from(a32::<5>(w))).to_vec(),
        28 => <[u8; 28]>::from(Hash224::from(a32::<7>(w))).to_vec(),
        32 => <[u8; 32]>::from(Hash256::from(a32::<8>(w))).to_vec(),
        48 => <[u8; 48]>::from(Hash384::from(a64::<6>(w))).to_vec(),
        64 => <[u8; 64]>::from(Hash512::from(a64::<8>(w))).to_vec(),
        _ => unreachable!(),
    }
}
/// Equality of two digests given as hex.
#[inline(never)]
pub fn hash_eq(n: usize, a: &str, b: &str) -> bool {
    fn go<T: PartialEq + Clone + FromHex>(a: &str, b: &str) -> bool {
        let (Ok(x), Ok(y)) = (T::from_hex(a), T::from_hex(b)) else { panic!("valid hex rejected") };
        let r = x == y;
        assert_eq!(r, x.clone() == y.clone());
        r
    }
    match n {
        20 => go::<Hash160>(a, b),
        28 => go::<Hash224>(a, b),
        32 => go::<Hash256>(a, b),
        48 => go::<Hash384>(a, b),
        64 => go::<Hash512>(a, b),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- big integers

pub type Big = BigUint;

#[inline(never)]
pub fn big_be(b: &[u8]) -> Big {
    let b = &*skew(b);
    BigUint::from_be_bytes(b)
}
#[inline(never)]
pub fn big_le(b: &[u8]) -> Big {
    let b = &*skew(b);
    BigUint::from_le_bytes(b)
}
#[inline(never)]
pub fn big_u128(v: u128) -> Big {
    BigUint::from(v)
}
#[inline(never)]
pub fn big_to_be(a: &Big) -> Vec<u8> {
    a.to_be_bytes()
}
#[inline(never)]
pub fn big_as_u128(a: &Big) -> Result<u128, String> {
    a.as_u128()
}
#[inline(never)]
pub fn big_bits(a: &Big) -> u32 {
    a.bits_used()
}
#[inline(never)]
pub fn big_is_set(a: &Big, i: u32) -> bool {
    a.is_set(i)
}
#[inline(never)]
pub fn big_update(a: &mut Big, i: u32, v: bool) {
    a.update(i, v)
}
#[inline(never)]
pub fn big_add(a: &mut Big, b: &Big) {
    *a += b
}
#[inline(never)]
pub fn big_add_u8(a: &mut Big, b: u8) {
    *a += b
}
#[inline(never)]
pub fn big_sub(a: &mut Big, b: &Big) {
    *a -= b
}
#[inline(never)]
pub fn big_sub_val(a: Big, b: &Big) -> Big {
    a - b
}
#[inline(never)]
pub fn big_rem(a: &mut Big, b: &Big) {
    *a %= b
}
#[inline(never)]
pub fn big_shl(a: &mut Big, n: u32) {
    *a <<= n
}
#[inline(never)]
pub fn big_shr(a: &mut Big, n: u32) {
    *a >>= n
}
#[inline(never)]
pub fn big_cmp(a: &Big, b: &Big) -> (std::cmp::Ordering, Option<std::cmp::Ordering>, bool, bool, bool) {
    (a.cmp(b), a.partial_cmp(b), a == b, a < b, a <= b)
}

// ---------------------------------------------------------------- RSA

pub type Priv = PrivateKey;
pub type Publ = PublicKey;
pub type Rsa = RsaEncryption;

/// The number, one time in four (depending on its bytes) as the rest of a longer one whose high bits
/// were cleared.
fn big_any(b: &[u8]) -> Big {
    let h = b.iter().fold(b.len() as u32 ^ 0x55, |h, &x| h.wrapping_mul(0x0100_0193) ^ x as u32) >> 3;
    if h % 4 != 0 {
        return big_be(b);
    }
    let extra = 1 + (h / 4 % 20);
    let mut v = vec![1; extra as usize];
    v.extend_from_slice(b);
    let mut x = big_be(&v);
    for k in (0..extra).rev() {
        big_update(&mut x, (b.len() as u32 + k) * 8, false);
    }
    x
}
#[inline(never)]
pub fn rsa_create(p: &[u8], q: &[u8], e: &[u8]) -> (Priv, Publ) {
    create_keys(big_any(p), big_any(q), big_any(e))
}
#[inline(never)]
pub fn rsa_priv(k: Priv) -> Rsa {
    RsaEncryption::from(k)
}
#[inline(never)]
pub fn pub_eq(a: &Publ, b: &Publ) -> bool {
    a == b && !(a != b) && *a == a.clone()
}
#[inline(never)]
pub fn priv_eq(a: &Priv, b: &Priv) -> bool {
    a == b && !(a != b) && *a == a.clone()
}
#[inline(never)]
pub fn rsa_pub(k: Publ) -> Rsa {
    RsaEncryption::from(k)
}
#[inline(never)]
pub fn rsa_enc(r: &Rsa, m: &[u8]) -> Vec<u8> {
    r.encrypt(big_any(m)).to_be_bytes()
}
#[inline(never)]
pub fn rsa_dec(r: &Rsa, m: &[u8]) -> Vec<u8> {
    r.decrypt(big_any(m)).to_be_bytes()
}
#[inline(never)]
pub fn rsa_enc_msg(r: &Rsa, m: &[u8]) -> Vec<u8> {
    let m = &*skew(m);
    r.encrypt_message(m, RsaPadding)
}
#[inline(never)]
pub fn rsa_dec_msg(r: &Rsa, c: &[u8]) -> Vec<u8> {
    let c = &*skew(c);
    r.decrypt_message(c, RsaPadding)
}
/// A user-supplied padding scheme: a fixed-width frame of n_len bytes (0, length, data, filler)
/// that records how it is called.
pub struct FramePadding<'a> {
    pub calls: &'a RefCell<Vec<(bool, Vec<u8>, Vec<u8>, usize)>>,
    pub fill: u8,
}
impl PaddingScheme for FramePadding<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        self.calls.borrow_mut().push((true, label.to_vec(), message.to_vec(), n_len));
        let mut v = vec![self.fill; n_len];
        v[0] = 0;
        v[1] = message.len() as u8;
        v[2..2 + message.len()].copy_from_slice(message);
        v
    }
    fn decode(&self, label: &[u8], em: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        self.calls.borrow_mut().push((false, label.to_vec(), em.to_vec(), n_len));
        if em.len() != n_len || em.len() < 2 || em[0] != 0 || em.len() < 2 + em[1] as usize {
            return Err("bad frame");
        }
        Ok(em[2..2 + em[1] as usize].to_vec())
    }
}
#[inline(never)]
pub fn rsa_enc_frame(r: &Rsa, m: &[u8], p: FramePadding) -> Vec<u8> {
    r.encrypt_message(m, p)
}
#[inline(never)]
pub fn rsa_dec_frame(r: &Rsa, c: &[u8], p: FramePadding) -> Vec<u8> {
    r.decrypt_message(c, p)
}
/// A padding scheme that gives back what it was told to.
pub struct RawPadding<'a> {
    pub calls: &'a RefCell<Vec<(bool, Vec<u8>, Vec<u8>, usize)>>,
    pub block: &'a [u8],
    pub answer: Result<Vec<u8>, &'static str>,
}
impl PaddingScheme for RawPadding<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        self.calls.borrow_mut().push((true, label.to_vec(), message.to_vec(), n_len));
        self.block.to_vec()
    }
    fn decode(&self, label: &[u8], em: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        self.calls.borrow_mut().push((false, label.to_vec(), em.to_vec(), n_len));
        self.answer.clone()
    }
}
#[inline(never)]
pub fn rsa_enc_raw(r: &Rsa, m: &[u8], p: RawPadding) -> Vec<u8> {
    r.encrypt_message(m, p)
}
#[inline(never)]
pub fn rsa_dec_raw(r: &Rsa, c: &[u8], p: RawPadding) -> Vec<u8> {
    r.decrypt_message(c, p)
}
#[inline(never)]
pub fn oaep_encode(label: &[u8], m: &[u8], k: usize) -> Vec<u8> {
    let label = &*skew(label);
    let m = &*skew(m);
    RsaPadding.encode(label, m, k)
}
#[inline(never)]
pub fn oaep_decode(label: &[u8], em: &[u8], k: usize) -> Result<Vec<u8>, String> {
    let label = &*skew(label);
    let em = &*skew(em);
    RsaPadding.decode(label, em, k).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- PEM, ASN.1, key import

#[inline(never)]
pub fn pem_format(label: &str, data: &[u8]) -> String {
    PEM { label: label.to_string(), data: data.to_vec() }.to_string()
}
#[inline(never)]
pub fn pem_parse(s: &str) -> Result<(String, Vec<u8>), String> {
    let s = &*skew(s.as_bytes());
    let s = std::str::from_utf8(s).unwrap();
    PEM::from_str(s).map(|p| (p.label, p.data))
}
#[inline(never)]
pub fn asn1_parse(b: &[u8]) -> Result<Asn1, String> {
    let b = &*skew(b);
    Asn1::try_from(b)
}
#[inline(never)]
pub fn import_priv(label: &str, der: &[u8]) -> Result<Priv, String> {
    PrivateKey::try_from(PEM { label: label.to_string(), data: der.to_vec() })
}
#[inline(never)]
pub fn import_pub(label: &str, der: &[u8]) -> Result<Publ, String> {
    PublicKey::try_from(PEM { label: label.to_string(), data: der.to_vec() })
}
#[inline(never)]
pub fn import_priv_text(s: &str) -> Result<Priv, String> {
    PrivateKey::try_from(PEM::from_str(s)?)
}
#[inline(never)]
pub fn import_pub_text(s: &str) -> Result<Publ, String> {
    PublicKey::try_from(PEM::from_str(s)?)
}

// ------------------------------------------------------------------ calls from within calls

pub const NESTINGS: u8 = 12;
struct HookMode<'a>(&'a dyn Fn());
impl BlockCipherMode<8> for HookMode<'_> {
    fn encrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: Block<8>) -> Block<8> {
        (self.0)();
        c.encrypt(b)
    }
    fn decrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: Block<8>) -> Block<8> {
        let r = c.decrypt(b);
        (self.0)();
        r
    }
}
struct HookCipher<'a, C>(C, &'a dyn Fn());
impl<C: BlockCipher<8>> BlockCipher<8> for HookCipher<'_, C> {
    fn encrypt(&self, b: Block<8>) -> Block<8> {
        let r = self.0.encrypt(b);
        (self.1)();
        r
    }
    fn decrypt(&self, b: Block<8>) -> Block<8> {
        (self.1)();
        self.0.decrypt(b)
    }
}
struct HookBytes<'a>(&'a [u8], &'a dyn Fn());
impl AsRef<[u8]> for HookBytes<'_> {
    fn as_ref(&self) -> &[u8] {
        (self.1)();
        self.0
    }
}
struct HookWrite<'a>(String, &'a dyn Fn());
impl std::fmt::Write for HookWrite<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push_str(s);
        (self.1)();
        Ok(())
    }
}
struct HookPad<'a>(&'a dyn Fn());
impl PaddingScheme for HookPad<'_> {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> {
        (self.0)();
        let mut v = vec![0; n - m.len()];
        v.extend_from_slice(m);
        v
    }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> {
        (self.0)();
        Ok(m.to_vec())
    }
}
/// One operation of the library in whose middle (in a callback it makes) `f` is called.
#[inline(never)]
pub fn nested(kind: u8, key: &[u8], m: &[u8], f: &dyn Fn()) -> Vec<u8> {
    let mut out = vec![];
    let ecb = |o: &mut Vec<u8>| BlockEncryption::encrypt(Rc5::new(key, 12), EcbMode::<8>, m, |b| o.push(b));
    match kind {
        0 => BlockEncryption::encrypt(Rc5::new(key, 12), EcbMode::<8>, m, |b| {
            out.push(b);
            f()
        }),
        1 => {
            let mut c = vec![];
            ecb(&mut c);
            BlockEncryption::decrypt(Rc5::new(key, 12), EcbMode::<8>, &c, |b| {
                out.push(b);
                f()
            })
        }
        2 => BlockEncryption::encrypt(Rc5::new(key, 12), HookMode(f), m, |b| out.push(b)),
        3 => {
            let mut c = vec![];
            ecb(&mut c);
            BlockEncryption::decrypt(HookCipher(Rc5::new(key, 12), f), HookMode(f), &c, |b| out.push(b))
        }
        4 => out.extend(StreamCipher::new(Rc4::new(key).inspect(|_| f())).encrypt(m.iter().copied())),
        5 => {
            let mut s = StreamCipher::new(Rc4::new(key));
            out.extend(s.encrypt(m.iter().map(|&b| {
                f();
                b
            })))
        }
        6 => out.extend(cryptography::md2(m.iter().inspect(|_| f()))),
        7 => out.extend(cryptography::md4(m.iter().inspect(|_| f()))),
        8 => out.extend(cryptography::md5(m.iter().inspect(|_| f()))),
        9 => {
            // 65521 * 65519, 11
            let (d, e) = create_keys(BigUint::from(65521), BigUint::from(65519), BigUint::from(11));
            let c = RsaEncryption::from(e).encrypt_message(&m[..m.len().min(3)], HookPad(f));
            out.extend(RsaEncryption::from(d).decrypt_message(&c, HookPad(f)));
        }
        10 => {
            let mut w = HookWrite(String::new(), f);
            std::fmt::Write::write_fmt(&mut w, format_args!("{}", PEM { label: "N".into(), data: m.to_vec() })).unwrap();
            out = w.0.into_bytes();
        }
        _ => {
            let mut b = BigUint::from_be_bytes(HookBytes(key, f));
            b += &BigUint::from_le_bytes(HookBytes(m, f));
            out = b.to_be_bytes();
            let h = <[u8; 20]>::from(Hash160::from_hex(HookBytes(&[b'7'; 40], f)).unwrap());
            out.extend(h);
        }
    }
    out
}
