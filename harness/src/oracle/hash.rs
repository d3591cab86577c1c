//! MD2, MD4, MD5, SHA-1, SHA-2 from their specifications; constants are computed.
use super::big::Int;
use std::sync::OnceLock;

// ---- MD2: the S table is a permutation shuffled by the digits of pi (RFC 1319)
fn pi_digits(n: usize) -> Vec<u8> {
    // Rabinowitz-Wagon spigot
    let len = n * 10 / 3 + 16;
    let mut a = vec![2u32; len];
    let mut out: Vec<u8> = vec![];
    let (mut nines, mut pre) = (0, 0u32);
    for j in 0..n + 12 {
        let mut q = 0u32;
        for i in (1..=len).rev() {
            let x = 10 * a[i - 1] + q * i as u32;
            a[i - 1] = x % (2 * i as u32 - 1);
            q = x / (2 * i as u32 - 1);
        }
        a[0] = q % 10;
        q /= 10;
        if q == 9 {
            nines += 1;
        } else if q == 10 {
            out.push((pre + 1) as u8);
            out.extend(std::iter::repeat_n(0, nines));
            pre = 0;
            nines = 0;
        } else {
            if j > 0 {
                out.push(pre as u8);
            }
            pre = q;
            out.extend(std::iter::repeat_n(9, nines));
            nines = 0;
        }
    }
    if out.first() == Some(&0) {
        out.remove(0);
    }
    out.truncate(n);
    out
}
pub fn md2_table() -> &'static [u8; 256] {
    static T: OnceLock<[u8; 256]> = OnceLock::new();
    T.get_or_init(|| {
        // the generator published for the table: rand(n) from successive digits of pi
        let d = pi_digits(722);
        let mut it = d.into_iter();
        let mut s: [u8; 256] = std::array::from_fn(|i| i as u8);
        let mut rand = |n: u32| -> u32 {
            loop {
                let mut x = it.next().expect("pi") as u32;
                let mut y = 10;
                if n > 10 {
                    x = x * 10 + it.next().expect("pi") as u32;
                    y = 100;
                }
                if n > 100 {
                    x = x * 10 + it.next().expect("pi") as u32;
                    y = 1000;
                }
                if x < n * (y / n) {
                    return x % n;
                }
            }
        };
        for i in 2..=256u32 {
            let j = rand(i) as usize;
            s.swap(j, i as usize - 1);
        }
        s
    })
}
pub fn md2(m: &[u8]) -> Vec<u8> {
    let s = md2_table();
    let pad = 16 - m.len() % 16;
    let mut v = m.to_vec();
    v.resize(m.len() + pad, pad as u8);
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for b in v.chunks(16) {
        for j in 0..16 {
            c[j] ^= s[(b[j] ^ l) as usize];
            l = c[j];
        }
    }
    v.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for b in v.chunks(16) {
        for j in 0..16 {
            x[16 + j] = b[j];
            x[32 + j] = b[j] ^ x[j];
        }
        let mut t = 0u32;
        for j in 0..18 {
            for e in x.iter_mut() {
                *e ^= s[t as usize];
                t = *e as u32;
            }
            t = (t + j) & 255;
        }
    }
    x[..16].to_vec()
}

pub fn padded(m: &[u8], block: usize, len_bytes: usize, be: bool) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % block != block - len_bytes {
        v.push(0);
    }
    let bits = m.len() as u128 * 8;
    if be {
        v.extend_from_slice(&bits.to_be_bytes()[16 - len_bytes..]);
    } else {
        v.extend_from_slice(&bits.to_le_bytes()[..len_bytes]);
    }
    v
}

pub fn md4(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for b in padded(m, 64, 8, false).chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|w| u32::from_le_bytes(w.try_into().unwrap())).collect();
        let mut v = h;
        for i in 0..48 {
            let (f, k, s, add): (u32, usize, u32, u32) = {
                let (b, c, d) = (v[1], v[2], v[3]);
                match i / 16 {
                    0 => ((b & c) | (!b & d), i, [3, 7, 11, 19][i % 4], 0),
                    1 => ((b & c) | (b & d) | (c & d), (i % 4) * 4 + (i % 16) / 4, [3, 5, 9, 13][i % 4], 0x5a827999),
                    _ => (b ^ c ^ d, [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15][i - 32], [3, 9, 11, 15][i % 4], 0x6ed9eba1),
                }
            };
            let n = v[0].wrapping_add(f).wrapping_add(x[k]).wrapping_add(add).rotate_left(s);
            v = [v[3], n, v[1], v[2]];
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_le_bytes()).collect()
}

pub fn md5(m: &[u8]) -> Vec<u8> {
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(|| (1..=64).map(|i| ((i as f64).sin().abs() * 4294967296.0) as u32).collect());
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for b in padded(m, 64, 8, false).chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|w| u32::from_le_bytes(w.try_into().unwrap())).collect();
        let mut v = h;
        for i in 0..64 {
            let (b, c, d) = (v[1], v[2], v[3]);
            let (f, k, s) = match i / 16 {
                0 => ((b & c) | (!b & d), i, [7u32, 12, 17, 22]),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16, [5, 9, 14, 20]),
                2 => (b ^ c ^ d, (3 * i + 5) % 16, [4, 11, 16, 23]),
                _ => (c ^ (b | !d), (7 * i) % 16, [6, 10, 15, 21]),
            };
            let n = b.wrapping_add(v[0].wrapping_add(f).wrapping_add(x[k]).wrapping_add(t[i]).rotate_left(s[i % 4]));
            v = [d, n, b, c];
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_le_bytes()).collect()
}

pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for b in padded(m, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|w| u32::from_be_bytes(w.try_into().unwrap())).collect();
        for t in 16..80 {
            w.push((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1));
        }
        let mut v = h;
        for t in 0..80 {
            let (b, c, d) = (v[1], v[2], v[3]);
            let (f, k) = match t / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let n = v[0].rotate_left(5).wrapping_add(f).wrapping_add(v[4]).wrapping_add(k).wrapping_add(w[t]);
            v = [n, v[0], b.rotate_left(30), c, d];
        }
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_be_bytes()).collect()
}

pub struct Consts {
    pub k: [u64; 80],
    pub iv512: [u64; 8],
    pub iv384: [u64; 8],
}
pub fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let primes: Vec<u128> = (2u128..).filter(|n| (2..*n).all(|d| n % d != 0)).take(80).collect();
        let frac = |p: u128, k: u32| Int::from_u128(p).shl(64 * k as u64).root(k).to_u128().unwrap() as u64;
        Consts {
            k: std::array::from_fn(|i| frac(primes[i], 3)),
            iv512: std::array::from_fn(|i| frac(primes[i], 2)),
            iv384: std::array::from_fn(|i| frac(primes[i + 8], 2)),
        }
    })
}
fn sha_32(m: &[u8], mut h: [u32; 8]) -> Vec<u8> {
    let c = consts();
    for b in padded(m, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|w| u32::from_be_bytes(w.try_into().unwrap())).collect();
        for t in 16..64 {
            let (x, y) = (w[t - 2], w[t - 15]);
            let s1 = x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
            let s0 = y.rotate_right(7) ^ y.rotate_right(18) ^ (y >> 3);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..64 {
            let (a, e) = (v[0], v[4]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add((c.k[t] >> 32) as u32)
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_be_bytes()).collect()
}
fn sha_64(m: &[u8], mut h: [u64; 8]) -> Vec<u8> {
    let c = consts();
    for b in padded(m, 128, 16, true).chunks(128) {
        let mut w: Vec<u64> = b.chunks(8).map(|w| u64::from_be_bytes(w.try_into().unwrap())).collect();
        for t in 16..80 {
            let (x, y) = (w[t - 2], w[t - 15]);
            let s1 = x.rotate_right(19) ^ x.rotate_right(61) ^ (x >> 6);
            let s0 = y.rotate_right(1) ^ y.rotate_right(8) ^ (y >> 7);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..80 {
            let (a, e) = (v[0], v[4]);
            let t1 = v[7]
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add((e & v[5]) ^ (!e & v[6]))
                .wrapping_add(c.k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_be_bytes()).collect()
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    sha_32(m, consts().iv512.map(|x| (x >> 32) as u32))
}
pub fn sha224(m: &[u8]) -> Vec<u8> {
    let mut v = sha_32(m, consts().iv384.map(|x| x as u32));
    v.truncate(28);
    v
}
pub fn sha512(m: &[u8]) -> Vec<u8> {
    sha_64(m, consts().iv512)
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    let mut v = sha_64(m, consts().iv384);
    v.truncate(48);
    v
}
pub fn sha(alg: u16, m: &[u8]) -> Vec<u8> {
    match alg {
        1 => sha1(m),
        224 => sha224(m),
        256 => sha256(m),
        384 => sha384(m),
        512 => sha512(m),
        _ => unreachable!(),
    }
}
pub fn md(alg: u8, m: &[u8]) -> Vec<u8> {
    match alg {
        2 => md2(m),
        4 => md4(m),
        5 => md5(m),
        _ => unreachable!(),
    }
}
