//! Validates the reference models against published vectors and against values computed by
//! other implementations. A failure here is a harness error, never a violation.
use crate::oracle::big::Int;
use crate::oracle::*;
#[path = "selftest_data.rs"]
mod data;

fn h(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn take(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 56) as u8
        })
        .collect()
}
fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    v.try_into().unwrap()
}

pub fn run() -> Result<usize, String> {
    let mut n = 0;
    let mut eq = |what: &str, got: &[u8], want: &[u8]| -> Result<(), String> {
        n += 1;
        if got == want { Ok(()) } else { Err(format!("{what}: got {} want {}", crate::engine::hex(got), crate::engine::hex(want))) }
    };
    // FIPS 197 appendix C
    let pt = arr::<16>(&h("00112233445566778899aabbccddeeff"));
    for (len, ct) in [(16usize, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")] {
        let k: Vec<u8> = (0..len as u8).collect();
        let r = aes::Ref::new(&k);
        eq("aes", &r.enc(pt), &h(ct))?;
        eq("aes inverse", &r.dec(arr(&h(ct))), &pt)?;
    }
    // RFC 2268 section 5
    for (k, bits, p, c) in [
        ("0000000000000000", 63, "0000000000000000", "ebb773f993278eff"),
        ("ffffffffffffffff", 64, "ffffffffffffffff", "278b27e42e2f0d49"),
        ("3000000000000000", 64, "1000000000000001", "30649edf9be7d2c2"),
        ("88", 64, "0000000000000000", "61a8a244adacccf0"),
        ("88bca90e90875a", 64, "0000000000000000", "6ccf4308974c267f"),
        ("88bca90e90875a7f0f79c384627bafb2", 64, "0000000000000000", "1a807d272bbe5db1"),
        ("88bca90e90875a7f0f79c384627bafb2", 128, "0000000000000000", "2269552ab0f85ca6"),
        ("88bca90e90875a7f0f79c384627bafb216f80a6f85920584c42fceb0be255daf1e", 129, "0000000000000000", "5b78d3a43dfff1f1"),
    ] {
        let r = rc::Rc2::new(&h(k), bits);
        eq("rc2", &r.enc(arr(&h(p))), &h(c))?;
        eq("rc2 inverse", &r.dec(arr(&h(c))), &h(p))?;
    }
    // RC4: commonly published vectors
    for (k, p, c) in [("Key", "Plaintext", "bbf316e8d940af0ad3"), ("Wiki", "pedia", "1021bf0420"), ("Secret", "Attack at dawn", "45a01f645fc35b383552544b9bf5")] {
        let ks = rc::Rc4::stream(k.as_bytes(), p.len());
        let x: Vec<u8> = ks.iter().zip(p.bytes()).map(|(a, b)| a ^ b).collect();
        eq("rc4", &x, &h(c))?;
    }
    // RC5-32/12/16: examples of Rivest's paper (each ciphertext is the next plaintext)
    let mut p = [0u8; 8];
    for (k, c) in [
        ("00000000000000000000000000000000", "21a5dbee154b8f6d"),
        ("915f4619be41b2516355a50110a9ce91", "f7c013ac5b2b8952"),
        ("783348e75aeb0f2fd7b169bb8dc16787", "2f42b3b70369fc92"),
        ("dc49db1375a5584f6485b413b5f12baf", "65c178b284d197cc"),
        ("5269f149d41ba0152497574d7f153125", "eb44e415da319824"),
    ] {
        let r = rc::Rc5::new(&h(k), 12);
        eq("rc5", &r.enc(p), &h(c))?;
        eq("rc5 inverse", &r.dec(arr(&h(c))), &p)?;
        p = arr(&h(c));
    }
    // RFC 1319, 1320, 1321, FIPS 180
    for (m, d) in [("", "8350e5a3e24c153df2275c9f80692773"), ("a", "32ec01ec4a6dac72c0ab96fb34c0b5d1"), ("abc", "da853b0d3f88d99b30283a69e6ded6bb"), ("message digest", "ab4f496bfb2a530b219ff33031fe06b0"), ("abcdefghijklmnopqrstuvwxyz", "4e8ddff3650292ab5a4108c3aa47940b"), ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "da33def2a42df13975352846c30338cd"), ("12345678901234567890123456789012345678901234567890123456789012345678901234567890", "d5976f79d83d3a0dc9806c3c66f3efd8")] {
        eq("md2", &hash::md2(m.as_bytes()), &h(d))?;
    }
    eq("md4", &hash::md4(b"abc"), &h("a448017aaf21d8525fc10ae87aa6729d"))?;
    eq("md5", &hash::md5(b"abc"), &h("900150983cd24fb0d6963f7d28e17f72"))?;
    eq("sha256", &hash::sha256(b"abc"), &h("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"))?;
    // MD2's table is a permutation
    for (id, block, len) in [(4u16, 64usize, 8usize), (5, 64, 8), (1, 64, 8), (224, 64, 8), (256, 64, 8), (384, 128, 16), (512, 128, 16)] {
        let m = vec![0x5a; 150];
        let want = if id == 4 || id == 5 { hash::md(id as u8, &m) } else { hash::sha(id, &m) };
        eq("solver steps", &crate::oracle::solve::digest(id, &hash::padded(&m, block, len, id != 4 && id != 5)), &want)?;
        if !crate::oracle::solve::aims(id) {
            return Err(format!("solver for {id} misses its targets"));
        }
    }
    let mut t = hash::md2_table().to_vec();
    t.sort();
    eq("md2 table", &t, &(0..=255).collect::<Vec<u8>>())?;
    // roll-ups of other implementations
    for (name, count, want) in data::ROLL {
        let mut all = vec![];
        for i in 0..*count {
            let u = i as u64;
            match *name {
                "md4" => all.extend(hash::md4(&take(u, i))),
                "md5" => all.extend(hash::md5(&take(u, i))),
                "sha1" => all.extend(hash::sha1(&take(u, i))),
                "sha224" => all.extend(hash::sha224(&take(u, i))),
                "sha256" => all.extend(hash::sha256(&take(u, i))),
                "sha384" => all.extend(hash::sha384(&take(u, i))),
                "sha512" => all.extend(hash::sha512(&take(u, i))),
                "aes" => {
                    let k = take(1000 + u, [16, 24, 32][i % 3]);
                    let b = arr::<16>(&take(2000 + u, 16));
                    let r = aes::Ref::new(&k);
                    all.extend(r.enc(b));
                    all.extend(r.dec(b));
                }
                "rc4" => all.extend(rc::Rc4::stream(&take(3000 + u, 16), 300)),
                "rc2" => all.extend(rc::Rc2::new(&take(4000 + u, 16), 128).enc(arr(&take(5000 + u, 8)))),
                "b64" => all.extend(pem::b64(&take(9000 + u, i)).bytes()),
                "big" => {
                    let a = Int::from_be(&take(6000 + u, i % 70));
                    let mut b = Int::from_be(&take(7000 + u, 1 + i % 41));
                    b.set_bit(0, true);
                    let e = Int::from_be(&take(8000 + u, i % 9));
                    let s = u % 90;
                    let (q, r) = a.divrem(&b);
                    let diff = if a.cmp(&b) == std::cmp::Ordering::Less { b.sub(&a) } else { a.sub(&b) };
                    for p in [a.add(&b), a.mul(&b), r, q, a.modpow(&e, &b), a.shl(s), a.shr(s), diff] {
                        let x = p.to_be();
                        all.extend((x.len() as u16).to_be_bytes());
                        all.extend(x);
                    }
                }
                _ => return Err(format!("unknown roll-up {name}")),
            }
        }
        eq(name, &hash::sha256(&all), &h(want))?;
    }
    for i in 0..200usize {
        let d = take(i as u64, i);
        eq("base64 inverse", &pem::unb64(pem::b64(&d).as_bytes()).unwrap_or_default(), &d)?;
        let s = arr::<32>(&take(77 + i as u64, 32));
        let em = oaep::encode(b"l", &d, d.len() + 66 + i % 7, &s);
        eq("oaep inverse", &oaep::decode(b"l", &em, em.len()).unwrap_or_default(), &d)?;
    }
    // MGF1-SHA-256 (published example)
    eq("mgf1", &oaep::mgf1(b"bar", 50), &h("382576a7841021cc28fc4c0948753fb8312090cea942ea4c4e735d10dc724b155f9f6069f289d61daca0cb814502ef04eae1"))?;
    Ok(n)
}
