//! RC2 (RFC 2268), RC4, RC5-32.

/// PITABLE, from RFC 2268 section 2.
const PI: [u8; 256] = *include_bytes!("pitable.bin");

pub struct Rc2 {
    k: [u16; 64],
}
impl Rc2 {
    pub fn new(key: &[u8], t1: usize) -> Self {
        let t = key.len();
        let mut l: Vec<u8> = key.to_vec();
        while l.len() < 128 {
            let i = l.len();
            l.push(PI[(l[i - 1] as usize + l[i - t] as usize) & 255]);
        }
        let t8 = (t1 + 7) / 8;
        let tm: u8 = (255u32 % (1u32 << (8 + t1 - 8 * t8))) as u8;
        l[128 - t8] = PI[(l[128 - t8] & tm) as usize];
        let mut i = 128 - t8;
        while i > 0 {
            i -= 1;
            l[i] = PI[(l[i + 1] ^ l[i + t8]) as usize];
        }
        let mut k = [0; 64];
        for i in 0..64 {
            k[i] = l[2 * i] as u16 + 256 * l[2 * i + 1] as u16;
        }
        Rc2 { k }
    }
    fn mix(&self, r: &mut [u16; 4], round: usize) {
        const S: [u32; 4] = [1, 2, 3, 5];
        for i in 0..4 {
            let (a, b, c) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
            let v = r[i] as u32 + self.k[4 * round + i] as u32 + (a & b) as u32 + ((!a) & c) as u32;
            r[i] = (v as u16).rotate_left(S[i]);
        }
    }
    fn unmix(&self, r: &mut [u16; 4], round: usize) {
        const S: [u32; 4] = [1, 2, 3, 5];
        for i in [3usize, 2, 1, 0] {
            let (a, b, c) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
            let v = r[i].rotate_right(S[i]) as i32 - self.k[4 * round + i] as i32 - (a & b) as i32 - ((!a) & c) as i32;
            r[i] = v as u16;
        }
    }
    fn mash(&self, r: &mut [u16; 4]) {
        for i in 0..4 {
            r[i] = (r[i] as u32 + self.k[(r[(i + 3) & 3] & 63) as usize] as u32) as u16;
        }
    }
    fn unmash(&self, r: &mut [u16; 4]) {
        for i in [3usize, 2, 1, 0] {
            r[i] = (r[i] as i32 - self.k[(r[(i + 3) & 3] & 63) as usize] as i32) as u16;
        }
    }
    fn load(b: [u8; 8]) -> [u16; 4] {
        std::array::from_fn(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8)
    }
    fn store(r: [u16; 4]) -> [u8; 8] {
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
    pub fn enc(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r = Self::load(b);
        let mut round = 0;
        for (n, m) in [(5, true), (6, true), (5, false)] {
            for _ in 0..n {
                self.mix(&mut r, round);
                round += 1;
            }
            if m {
                self.mash(&mut r);
            }
        }
        Self::store(r)
    }
    pub fn dec(&self, b: [u8; 8]) -> [u8; 8] {
        self.dec_from(b, 16)
    }
    /// Runs the inverse of the first `rounds` mixing rounds (and the mashing between them).
    pub fn dec_from(&self, b: [u8; 8], rounds: usize) -> [u8; 8] {
        let mut r = Self::load(b);
        for round in (0..rounds).rev() {
            if round == 10 || round == 4 {
                self.unmash(&mut r);
            }
            self.unmix(&mut r, round);
        }
        Self::store(r)
    }
}

pub struct Rc4 {
    s: Vec<u8>,
    i: usize,
    j: usize,
}
impl Rc4 {
    pub fn new(key: &[u8]) -> Self {
        let mut s: Vec<u8> = (0..=255).collect();
        let mut j = 0;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4 { s, i: 0, j: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i] as usize) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] as usize + self.s[self.j] as usize) % 256]
    }
    pub fn stream(key: &[u8], n: usize) -> Vec<u8> {
        let mut r = Rc4::new(key);
        (0..n).map(|_| r.byte()).collect()
    }
}

pub struct Rc5 {
    s: Vec<u32>,
}
impl Rc5 {
    pub fn new(key: &[u8], r: usize) -> Self {
        let b = key.len();
        let c = if b == 0 { 1 } else { (b + 3) / 4 };
        let mut l = vec![0u32; c];
        for i in (0..b).rev() {
            l[i / 4] = (l[i / 4] << 8).wrapping_add(key[i] as u32);
        }
        let t = 2 * (r + 1);
        let mut s: Vec<u32> = (0..t as u32).map(|i| 0xb7e15163u32.wrapping_add(i.wrapping_mul(0x9e3779b9))).collect();
        let (mut a, mut bb, mut i, mut j) = (0u32, 0u32, 0, 0);
        for _ in 0..3 * t.max(c) {
            s[i] = s[i].wrapping_add(a).wrapping_add(bb).rotate_left(3);
            a = s[i];
            l[j] = l[j].wrapping_add(a).wrapping_add(bb).rotate_left(a.wrapping_add(bb) & 31);
            bb = l[j];
            i = if i + 1 == t { 0 } else { i + 1 };
            j = if j + 1 == c { 0 } else { j + 1 };
        }
        Rc5 { s }
    }
    fn load(b: [u8; 8]) -> (u32, u32) {
        let w = u64::from_le_bytes(b);
        (w as u32, (w >> 32) as u32)
    }
    fn store(a: u32, b: u32) -> [u8; 8] {
        (a as u64 | (b as u64) << 32).to_le_bytes()
    }
    pub fn enc(&self, p: [u8; 8]) -> [u8; 8] {
        let (mut a, mut b) = Self::load(p);
        a = a.wrapping_add(self.s[0]);
        b = b.wrapping_add(self.s[1]);
        for k in self.s[2..].chunks(2) {
            a = (a ^ b).rotate_left(b % 32).wrapping_add(k[0]);
            b = (b ^ a).rotate_left(a % 32).wrapping_add(k[1]);
        }
        Self::store(a, b)
    }
    pub fn dec(&self, c: [u8; 8]) -> [u8; 8] {
        self.dec_from(c, self.s.len() / 2 - 1)
    }
    pub fn dec_from(&self, c: [u8; 8], rounds: usize) -> [u8; 8] {
        let (mut a, mut b) = Self::load(c);
        for k in self.s[2..2 + 2 * rounds].chunks(2).rev() {
            b = b.wrapping_sub(k[1]).rotate_right(a % 32) ^ a;
            a = a.wrapping_sub(k[0]).rotate_right(b % 32) ^ b;
        }
        Self::store(a.wrapping_sub(self.s[0]), b.wrapping_sub(self.s[1]))
    }
}
