//! Messages solved for: a block is built so that chosen working words or schedule words of the
//! compression function take chosen values (which random messages reach with probability 2^-32 or
//! 2^-64). Only a generator: the digests are judged by the models in hash.rs.
use super::hash::consts;

pub struct Alg {
    id: u16,
    bits: u32,
}
impl Alg {
    pub fn new(id: u16) -> Alg {
        Alg { id, bits: if id == 384 || id == 512 { 64 } else { 32 } }
    }
    pub fn block(&self) -> usize {
        16 * self.bits as usize / 8
    }
    fn m(&self, x: u64) -> u64 {
        if self.bits == 32 { x & 0xffff_ffff } else { x }
    }
    pub fn add(&self, xs: &[u64]) -> u64 {
        self.m(xs.iter().fold(0u64, |a, b| a.wrapping_add(*b)))
    }
    fn sub(&self, a: u64, b: u64) -> u64 {
        self.m(a.wrapping_sub(b))
    }
    pub fn not(&self, a: u64) -> u64 {
        self.m(!a)
    }
    fn rol(&self, x: u64, s: u32) -> u64 {
        if self.bits == 32 { (x as u32).rotate_left(s) as u64 } else { x.rotate_left(s) }
    }
    fn ror(&self, x: u64, s: u32) -> u64 {
        self.rol(x, self.bits - s)
    }
    fn le(&self) -> bool {
        self.id < 10 && self.id != 1
    }
    pub fn iv(&self) -> Vec<u64> {
        let c = consts();
        let md = vec![0x67452301u64, 0xefcdab89, 0x98badcfe, 0x10325476];
        match self.id {
            4 | 5 => md,
            1 => [md, vec![0xc3d2e1f0]].concat(),
            256 => c.iv512.iter().map(|x| x >> 32).collect(),
            224 => c.iv384.iter().map(|x| x & 0xffff_ffff).collect(),
            512 => c.iv512.to_vec(),
            _ => c.iv384.to_vec(),
        }
    }
    pub fn steps(&self) -> usize {
        match self.id {
            4 => 48,
            5 | 224 | 256 => 64,
            _ => 80,
        }
    }
    /// index of the message word that step t uses (MD4, MD5)
    fn index(&self, t: usize) -> usize {
        match (self.id, t / 16) {
            (4, 1) => (t % 4) * 4 + (t % 16) / 4,
            (4, 2) => [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15][t - 32],
            (5, 1) => (5 * t + 1) % 16,
            (5, 2) => (3 * t + 5) % 16,
            (5, 3) => (7 * t) % 16,
            _ => t,
        }
    }
    /// everything a step adds to the message word, and the left rotation applied to the sum
    fn sum(&self, t: usize, v: &[u64]) -> (u64, u32) {
        let (b, c, d) = (v[1], v[2], v[3]);
        match self.id {
            4 => match t / 16 {
                0 => (self.add(&[v[0], (b & c) | (self.not(b) & d)]), [3, 7, 11, 19][t % 4]),
                1 => (self.add(&[v[0], (b & c) | (b & d) | (c & d), 0x5a827999]), [3, 5, 9, 13][t % 4]),
                _ => (self.add(&[v[0], b ^ c ^ d, 0x6ed9eba1]), [3, 9, 11, 15][t % 4]),
            },
            5 => {
                let k = (((t + 1) as f64).sin().abs() * 4294967296.0) as u64;
                let (f, s) = match t / 16 {
                    0 => ((b & c) | (self.not(b) & d), [7u32, 12, 17, 22]),
                    1 => ((b & d) | (c & self.not(d)), [5, 9, 14, 20]),
                    2 => (b ^ c ^ d, [4, 11, 16, 23]),
                    _ => (c ^ (b | self.not(d)), [6, 10, 15, 21]),
                };
                (self.add(&[v[0], f, k]), s[t % 4])
            }
            1 => {
                let (f, k) = match t / 20 {
                    0 => ((b & c) ^ (self.not(b) & d), 0x5a827999),
                    1 => (b ^ c ^ d, 0x6ed9eba1),
                    2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                    _ => (b ^ c ^ d, 0xca62c1d6),
                };
                (self.add(&[self.rol(v[0], 5), f, v[4], k]), 0)
            }
            _ => {
                let e = v[4];
                let (r, k) = if self.bits == 32 { ([6, 11, 25], consts().k[t] >> 32) } else { ([14, 18, 41], consts().k[t]) };
                (self.add(&[v[7], self.ror(e, r[0]) ^ self.ror(e, r[1]) ^ self.ror(e, r[2]), (e & v[5]) ^ (self.not(e) & v[6]), k]), 0)
            }
        }
    }
    fn t2(&self, v: &[u64]) -> u64 {
        let a = v[0];
        let r = if self.bits == 32 { [2, 13, 22] } else { [28, 34, 39] };
        self.add(&[self.ror(a, r[0]) ^ self.ror(a, r[1]) ^ self.ror(a, r[2]), (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2])])
    }
    fn step(&self, t: usize, v: &[u64], w: u64) -> Vec<u64> {
        let (s, r) = self.sum(t, v);
        let x = self.add(&[s, w]);
        match self.id {
            4 => vec![v[3], self.rol(x, r), v[1], v[2]],
            5 => vec![v[3], self.add(&[v[1], self.rol(x, r)]), v[1], v[2]],
            1 => vec![x, v[0], self.rol(v[1], 30), v[2], v[3]],
            _ => vec![self.add(&[x, self.t2(v)]), v[0], v[1], v[2], self.add(&[v[3], x]), v[4], v[5], v[6]],
        }
    }
    /// the message word with which step t gives `val` as its new word (kind 1), as its other new
    /// word (kind 2, SHA-2) or as the sum before the rotation (kind 2, others)
    fn word_for(&self, t: usize, v: &[u64], kind: u8, val: u64) -> u64 {
        let (s, r) = self.sum(t, v);
        let val = self.m(val);
        let x = match (kind, self.id) {
            (0, _) => return val,
            (1, 4) => self.ror(val, r),
            (1, 5) => self.ror(self.sub(val, v[1]), r),
            (1, 1) => val,
            (1, _) => self.sub(val, self.t2(v)),
            (_, 1 | 4 | 5) => val,
            _ => self.sub(val, v[3]),
        };
        self.sub(x, s)
    }
    fn small(&self, x: u64, s: [u32; 3]) -> u64 {
        self.ror(x, s[0]) ^ self.ror(x, s[1]) ^ (x >> s[2])
    }
    fn sigma(&self, x: u64, y: u64) -> (u64, u64) {
        if self.bits == 32 {
            (self.small(x, [17, 19, 10]), self.small(y, [7, 18, 3]))
        } else {
            (self.small(x, [19, 61, 6]), self.small(y, [1, 8, 7]))
        }
    }
    fn schedule(&self, w: &[u64]) -> Vec<u64> {
        if self.le() {
            return (0..self.steps()).map(|t| w[self.index(t)]).collect();
        }
        let mut w = w.to_vec();
        for t in 16..self.steps() {
            w.push(if self.id == 1 {
                self.rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1)
            } else {
                let (s1, s0) = self.sigma(w[t - 2], w[t - 15]);
                self.add(&[s1, w[t - 7], s0, w[t - 16]])
            });
        }
        w
    }
    fn bytes(&self, w: &[u64]) -> Vec<u8> {
        w.iter()
            .flat_map(|x| match (self.bits, self.le()) {
                (64, _) => x.to_be_bytes().to_vec(),
                (_, true) => (*x as u32).to_le_bytes().to_vec(),
                _ => (*x as u32).to_be_bytes().to_vec(),
            })
            .collect()
    }
    fn words(&self, b: &[u8]) -> Vec<u64> {
        b.chunks(self.bits as usize / 8).map(|c| c.iter().enumerate().fold(0u64, |a, (i, x)| if self.le() { a | (*x as u64) << (8 * i) } else { a << 8 | *x as u64 })).collect()
    }
    /// chaining value after whole blocks
    pub fn chain(&self, mut h: Vec<u64>, blocks: &[u8]) -> Vec<u64> {
        for b in blocks.chunks(self.block()) {
            let w = self.schedule(&self.words(b));
            let mut v = h.clone();
            for t in 0..self.steps() {
                v = self.step(t, &v, w[t]);
            }
            for (a, b) in h.iter_mut().zip(&v) {
                *a = self.add(&[*a, *b]);
            }
        }
        h
    }
    /// a block whose first 16 steps are chosen one by one: `pick(step, working words)` gives
    /// (kind, value) as for word_for
    pub fn states(&self, h: &[u64], mut pick: impl FnMut(usize, &[u64]) -> (u8, u64)) -> Vec<u8> {
        let mut v = h.to_vec();
        let mut ws = vec![];
        for t in 0..16 {
            let (k, x) = pick(t, &v);
            let w = self.word_for(t, &v, k, x);
            v = self.step(t, &v, w);
            ws.push(w);
        }
        self.bytes(&ws)
    }
    /// a block whose schedule words at..at+16 are the given ones (SHA)
    pub fn window(&self, at: usize, win: &[u64]) -> Vec<u8> {
        let mut w: Vec<u64> = win.iter().map(|x| self.m(*x)).collect();
        for _ in 0..at {
            // w = W[k..k+16], find W[k-1]; with t = k+15: W[t-16] from W[t] = w[15] and the rest
            let p = if self.id == 1 {
                self.ror(w[15], 1) ^ w[12] ^ w[7] ^ w[1]
            } else {
                let (s1, s0) = self.sigma(w[13], w[0]);
                self.sub(w[15], self.add(&[s1, w[8], s0]))
            };
            w.pop();
            w.insert(0, p);
        }
        self.bytes(&w)
    }
}
/// for the self-test: the digest of one padded message, by this module's own steps
pub fn digest(id: u16, padded: &[u8]) -> Vec<u8> {
    let a = Alg::new(id);
    let mut d = a.bytes(&a.chain(a.iv(), padded));
    d.truncate(match id {
        224 => 28,
        384 => 48,
        _ => d.len(),
    });
    d
}
/// for the self-test: do `window` and `states` reach what they aim at?
pub fn aims(id: u16) -> bool {
    let a = Alg::new(id);
    let h = a.iv();
    let b = a.states(&h, |t, v| if t == 9 { (1, v[2]) } else { (0, t as u64 * 77) });
    let w = a.words(&b);
    let mut v = h;
    for t in 0..9 {
        v = a.step(t, &v, w[t]);
    }
    let n = a.step(9, &v, w[9]);
    let new = if a.le() { n[1] } else { n[0] };
    let ok = new == v[2];
    if a.le() {
        return ok;
    }
    let win: Vec<u64> = (0..16).map(|i| a.m(u64::wrapping_mul(i, 0x9e3779b97f4a7c15))).collect();
    let s = a.schedule(&a.words(&a.window(23, &win)));
    ok && s[23..39] == win[..]
}
