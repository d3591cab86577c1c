//! Reference non-negative integers: 32-bit limbs, schoolbook multiplication, Knuth division.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Int(Vec<u32>); // little endian, no leading zero limb

impl Int {
    pub fn zero() -> Int {
        Int(vec![])
    }
    pub fn from_u128(mut v: u128) -> Int {
        let mut l = vec![];
        while v > 0 {
            l.push(v as u32);
            v >>= 32;
        }
        Int(l)
    }
    pub fn from_be(b: &[u8]) -> Int {
        let l = b.rchunks(4).map(|c| c.iter().fold(0u32, |a, &x| a << 8 | x as u32)).collect();
        Int(l).norm()
    }
    #[allow(dead_code)]
    pub fn from_le(b: &[u8]) -> Int {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        Int::from_be(&v)
    }
    fn norm(mut self) -> Int {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn to_be(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().rev().flat_map(|l| l.to_be_bytes()).collect();
        let k = v.iter().position(|&b| b != 0).unwrap_or(v.len());
        v.drain(..k);
        v
    }
    pub fn to_be_len(&self, n: usize) -> Vec<u8> {
        let b = self.to_be();
        assert!(b.len() <= n);
        let mut v = vec![0; n - b.len()];
        v.extend(b);
        v
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().rev().fold(0u128, |a, &l| a << 32 | l as u128))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> u64 {
        match self.0.last() {
            None => 0,
            Some(l) => 32 * (self.0.len() as u64 - 1) + (32 - l.leading_zeros()) as u64,
        }
    }
    pub fn bytes(&self) -> usize {
        (self.bits() as usize).div_ceil(8)
    }
    pub fn bit(&self, i: u64) -> bool {
        self.0.get((i / 32) as usize).is_some_and(|l| l >> (i % 32) & 1 == 1)
    }
    pub fn set_bit(&mut self, i: u64, v: bool) {
        let k = (i / 32) as usize;
        while self.0.len() <= k {
            self.0.push(0);
        }
        if v {
            self.0[k] |= 1 << (i % 32);
        } else {
            self.0[k] &= !(1 << (i % 32));
        }
        *self = std::mem::take(self).norm();
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn add(&self, o: &Int) -> Int {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c;
            r.push(s as u32);
            c = s >> 32;
        }
        r.push(c as u32);
        Int(r).norm()
    }
    pub fn sub(&self, o: &Int) -> Int {
        assert!(self.cmp(o) != Ordering::Less);
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            r.push(d as u32);
        }
        assert!(b == 0);
        Int(r).norm()
    }
    pub fn mul(&self, o: &Int) -> Int {
        if self.is_zero() || o.is_zero() {
            return Int::zero();
        }
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Int(r).norm()
    }
    pub fn shl(&self, n: u64) -> Int {
        if self.is_zero() {
            return Int::zero();
        }
        let mut r = vec![0u32; (n / 32) as usize];
        let s = (n % 32) as u32;
        let mut c = 0u64;
        for &l in &self.0 {
            let t = (l as u64) << s | c;
            r.push(t as u32);
            c = t >> 32;
        }
        r.push(c as u32);
        Int(r).norm()
    }
    pub fn shr(&self, n: u64) -> Int {
        let k = (n / 32) as usize;
        if k >= self.0.len() {
            return Int::zero();
        }
        let s = (n % 32) as u32;
        let v = &self.0[k..];
        let r = (0..v.len())
            .map(|i| ((v[i] as u64 | (*v.get(i + 1).unwrap_or(&0) as u64) << 32) >> s) as u32)
            .collect();
        Int(r).norm()
    }
    pub fn divrem(&self, d: &Int) -> (Int, Int) {
        assert!(!d.is_zero());
        if self.cmp(d) == Ordering::Less {
            return (Int::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut r = 0u64;
            let mut q = vec![0; self.0.len()];
            for i in (0..self.0.len()).rev() {
                let t = r << 32 | self.0[i] as u64;
                q[i] = (t / d.0[0] as u64) as u32;
                r = t % d.0[0] as u64;
            }
            return (Int(q).norm(), Int::from_u128(r as u128));
        }
        // Knuth D
        let s = d.0.last().unwrap().leading_zeros();
        let v = d.shl(s as u64).0;
        let mut u = self.shl(s as u64).0;
        while u.len() <= self.0.len() {
            u.push(0);
        }
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Int(q).norm(), Int(u).norm().shr(s as u64))
    }
    pub fn rem(&self, d: &Int) -> Int {
        self.divrem(d).1
    }
    pub fn modpow(&self, e: &Int, n: &Int) -> Int {
        let mut r = Int::from_u128(1).rem(n);
        let a = self.rem(n);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(n);
            if e.bit(i) {
                r = r.mul(&a).rem(n);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    /// self^-1 mod n, if it exists (n >= 1)
    pub fn modinv(&self, n: &Int) -> Option<Int> {
        // invariants: r0 = s0*self (mod n), with s kept in 0..n
        let (mut r0, mut r1) = (n.clone(), self.rem(n));
        let (mut s0, mut s1) = (Int::zero(), Int::from_u128(1).rem(n));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = q.mul(&s1).rem(n);
            let s = if s0.cmp(&t) == Ordering::Less { s0.add(n).sub(&t) } else { s0.sub(&t) };
            r0 = r1;
            r1 = r;
            s0 = s1;
            s1 = s;
        }
        if r0 == Int::from_u128(1) { Some(s0) } else { None }
    }
    pub fn dec(&self) -> Int {
        self.sub(&Int::from_u128(1))
    }
    /// Miller-Rabin with the first 13 primes as bases (deterministic below 2^81), plus trial division.
    pub fn is_prime(&self) -> bool {
        const P: [u32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
        let two = Int::from_u128(2);
        if self.cmp(&two) == Ordering::Less {
            return false;
        }
        for p in P {
            let p = Int::from_u128(p as u128);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let m1 = self.dec();
        let mut s = 0;
        while !m1.bit(s) {
            s += 1;
        }
        let d = m1.shr(s);
        'w: for p in P {
            let mut x = Int::from_u128(p as u128).modpow(&d, self);
            if x == Int::from_u128(1) || x == m1 {
                continue;
            }
            for _ in 1..s {
                x = x.mul(&x).rem(self);
                if x == m1 {
                    continue 'w;
                }
            }
            return false;
        }
        true
    }
    /// floor of the k-th root (k = 2 or 3), by bisection
    pub fn root(&self, k: u32) -> Int {
        let mut r = Int::zero();
        for i in (0..=self.bits() / k as u64).rev() {
            let mut t = r.clone();
            t.set_bit(i, true);
            let mut p = t.mul(&t);
            if k == 3 {
                p = p.mul(&t);
            }
            if p.cmp(self) != Ordering::Greater {
                r = t;
            }
        }
        r
    }
}
