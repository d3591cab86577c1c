//! FIPS-197, table form: S-box from log/antilog tables of generator 3, state as a flat array.
//! Also runs the key schedule backwards and starts from chosen middle states.
pub struct Tables {
    pub s: [u8; 256],
    pub inv: [u8; 256],
    log: [u8; 256],
    exp: [u8; 512],
}
pub fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut exp = [0u8; 512];
        let mut log = [0u8; 256];
        let mut x: u16 = 1;
        for i in 0..255 {
            exp[i] = x as u8;
            exp[i + 255] = x as u8;
            log[x as usize] = i as u8;
            // multiply by 3
            let mut d = x << 1;
            if d & 0x100 != 0 {
                d ^= 0x11b;
            }
            x ^= d;
        }
        let mut s = [0u8; 256];
        let mut inv = [0u8; 256];
        for a in 0..256usize {
            let b = if a == 0 { 0 } else { exp[255 - log[a] as usize] };
            let r = b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63;
            s[a] = r;
            inv[r as usize] = a as u8;
        }
        Tables { s, inv, log, exp }
    })
}
fn mul(a: u8, b: u8) -> u8 {
    if a == 0 || b == 0 {
        return 0;
    }
    let t = tables();
    t.exp[t.log[a as usize] as usize + t.log[b as usize] as usize]
}
fn rcon(i: usize) -> u8 {
    // x^(i-1)
    let mut v: u16 = 1;
    for _ in 1..i {
        v <<= 1;
        if v & 0x100 != 0 {
            v ^= 0x11b;
        }
    }
    v as u8
}
pub fn rounds(key_len: usize) -> usize {
    key_len / 4 + 6
}
fn step(i: usize, nk: usize, prev: [u8; 4]) -> [u8; 4] {
    let s = &tables().s;
    let mut t = prev;
    if i % nk == 0 {
        t = [s[prev[1] as usize] ^ rcon(i / nk), s[prev[2] as usize], s[prev[3] as usize], s[prev[0] as usize]];
    } else if nk > 6 && i % nk == 4 {
        t = [s[prev[0] as usize], s[prev[1] as usize], s[prev[2] as usize], s[prev[3] as usize]];
    }
    t
}
fn xor4(a: [u8; 4], b: [u8; 4]) -> [u8; 4] {
    [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]]
}
pub fn expand(key: &[u8]) -> Vec<[u8; 4]> {
    let nk = key.len() / 4;
    let n = 4 * (rounds(key.len()) + 1);
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    for i in nk..n {
        let t = step(i, nk, w[i - 1]);
        w.push(xor4(w[i - nk], t));
    }
    w
}
/// The key whose schedule has the given `nk` words at positions at..at+nk.
pub fn key_with_schedule(nk: usize, at: usize, words: &[u8]) -> Vec<u8> {
    let mut w: Vec<[u8; 4]> = words.chunks(4).map(|c| c.try_into().unwrap()).collect();
    for i in (0..at).rev() {
        // w[0] is word i+1; word i+nk is w[nk-1]; word i+nk-1 is w[nk-2] (or the new one if nk==1)
        let t = step(i + nk, nk, w[nk - 2]);
        let x = xor4(w[nk - 1], t);
        w.insert(0, x);
        w.pop();
    }
    w.concat()
}
pub struct Ref {
    rk: Vec<[u8; 16]>,
}
impl Ref {
    pub fn new(key: &[u8]) -> Self {
        let w = expand(key);
        Ref { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn nr(&self) -> usize {
        self.rk.len() - 1
    }
    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.rk[r][i];
        }
    }
    pub fn enc(&self, p: [u8; 16]) -> [u8; 16] {
        let t = tables();
        let mut s = p;
        self.ark(&mut s, 0);
        for r in 1..=self.nr() {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != self.nr() {
                for c in 0..4 {
                    let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                    for row in 0..4 {
                        n[4 * c + row] = mul(2, a[row]) ^ mul(3, a[(row + 1) % 4]) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            s = n;
            self.ark(&mut s, r);
        }
        s
    }
    pub fn dec(&self, c: [u8; 16]) -> [u8; 16] {
        let mut s = c;
        for r in (1..=self.nr()).rev() {
            s = self.inv_round(s, r);
        }
        self.ark(&mut s, 0);
        s
    }
    fn inv_round(&self, c: [u8; 16], r: usize) -> [u8; 16] {
        let t = tables();
        let mut s = c;
        self.ark(&mut s, r);
        if r != self.nr() {
            for c in 0..4 {
                let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                for row in 0..4 {
                    s[4 * c + row] = mul(14, a[row]) ^ mul(11, a[(row + 1) % 4]) ^ mul(13, a[(row + 2) % 4]) ^ mul(9, a[(row + 3) % 4]);
                }
            }
        }
        let mut n = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                n[4 * ((c + row) % 4) + row] = t.inv[s[4 * c + row] as usize];
            }
        }
        n
    }
    /// The plaintext for which the state in round r (1..=nr) is `state` before (1) or after (2)
    /// the columns are mixed.
    pub fn plaintext_for_mix(&self, r: usize, after: bool, state: [u8; 16]) -> [u8; 16] {
        let mut s = state;
        if after {
            self.ark(&mut s, r);
            let e = self.inv_round(s, r);
            return self.plaintext_for(r, e);
        }
        let t = tables();
        let mut n = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                n[4 * ((c + row) % 4) + row] = t.inv[s[4 * c + row] as usize];
            }
        }
        self.plaintext_for(r, n)
    }
    /// The plaintext for which the state entering round r (1..=nr) is `state`.
    pub fn plaintext_for(&self, r: usize, state: [u8; 16]) -> [u8; 16] {
        let mut s = state;
        for q in (1..r).rev() {
            s = self.inv_round(s, q);
        }
        self.ark(&mut s, 0);
        s
    }
}
